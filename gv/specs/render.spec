// C19: rendering and conversion mirror the value tree.
event engine.engine.renderYamlNodes Rend quiet

def goMap(v) = v.(map[string]any)
contract core.YispNode.ToNative(n)(v, err) {
  prop C19
  maybenil
  ensures scalar: n.Kind == KindNull || n.Kind == KindBool || n.Kind == KindInt || n.Kind == KindFloat || n.Kind == KindString ==> err == nil && nev == 0 && v == n.Value
  ensures list: n.Kind == KindArray && err == nil ==> is(n.Value, []any) && is(v, []any) && len(v.([]any)) == len(lst(n)) && nev == len(lst(n))
          && (forall i in 0..len(lst(n)): isNative(i, lst(n)[i]) && everr(i) == nil && v.([]any)[i] == evres(i, "Native"))
  ensures map: n.Kind == KindMap && err == nil ==> isMap(n) && is(v, map[string]any) && nev == omlen(mp(n))
          && (forall i in 0..omlen(mp(n)): isNative(i, omget(mp(n), omkey(mp(n), i))) && everr(i) == nil && mhas(goMap(v), omkey(mp(n), i)) && goMap(v)[omkey(mp(n), i)] == evres(i, "Native"))
          && (forall s string: mhas(goMap(v), s) ==> omhas(mp(n), s))
  ensures taken: (n.Kind == KindArray && isList(n) && nodes(lst(n))) || (n.Kind == KindMap && isMap(n) && (forall i in 0..omlen(mp(n)): node(omget(mp(n), omkey(mp(n), i))))) ==> (err == nil <==> forall j in 0..nev: everr(j) == nil)
  ensures noform: n.Kind == KindLambda || n.Kind == KindParameter || n.Kind == KindType ==> err == nil && nev == 0 && is(v, string)
  inv count: nev == $k
  inv fine: forall j in 0..nev: everr(j) == nil
  inv list: n.Kind == KindArray ==> forall i in 0..$k: isNative(i, lst(n)[i]) && ?s[i] == evres(i, "Native")
  inv map: n.Kind == KindMap ==> forall i in 0..$k: isNative(i, omget(mp(n), omkey(mp(n), i))) && mhas(?g, omkey(mp(n), i)) && ?g[omkey(mp(n), i)] == evres(i, "Native")
  inv only: n.Kind == KindMap ==> forall s string: mhas(?g, s) ==> omhas(mp(n), s) && omidx(mp(n), s) < $k
}
def isNative(i, x) = evis(i, "Native") && node(x) && evrecv(i, "Native") == ref(x)

fn formatfloat(float64, byte, int, int) string;
fn containsany(string, string) bool;
fn isinf(float64, int) bool;
fn isnan(float64) bool;
// what strconv.ParseFloat reads back as the same number
def shortest(v) = formatfloat(v, 103, 0 - 1, 64)
def floatText(v) = if isinf(v, 1) then ".inf" else if isinf(v, 0 - 1) then "-.inf" else if isnan(v) then ".nan" else if containsany(shortest(v), ".e") then shortest(v) else cat(shortest(v), ".0")
contract engine.formatFloat(value)(r) {
  prop C19
  ensures text: is(value, float64) ==> r == floatText(value.(float64))
}

def isRend(i, e, x) = evis(i, "Rend") && evrecv(i, "Rend") == ref(e) && any(evarg(i, "Rend", 0)) == x && everr(i) == nil
def scalarNode(r, text, tag) = r.Kind == yaml.ScalarNode && r.Value == text && r.Tag == tag && len(r.Content) == 0
def hasForm(i) = evres(i, "Rend") != nil
contract engine.engine.renderYamlNodes(e, node)(r, err) {
  prop C19
  maybenil
  ensures null: node.Kind == KindNull ==> err == nil && nev == 0 && scalarNode(r, "null", "!!null")
  ensures bool: node.Kind == KindBool && is(node.Value, bool) ==> err == nil && nev == 0 && scalarNode(r, if node.Value.(bool) then "true" else "false", "!!bool")
  ensures int: node.Kind == KindInt && is(node.Value, int) ==> err == nil && nev == 0 && scalarNode(r, itoa(node.Value.(int)), "!!int")
  ensures float: node.Kind == KindFloat && is(node.Value, float64) ==> err == nil && nev == 0 && scalarNode(r, floatText(node.Value.(float64)), "!!float")
  ensures string: node.Kind == KindString && is(node.Value, string) ==> err == nil && nev == 0 && scalarNode(r, node.Value.(string), "!!str")
  fold forms(k) int = 0 ; if hasForm(k) then forms + 1 else forms
  ensures list: node.Kind == KindArray && err == nil ==> r != nil && r.Kind == yaml.SequenceNode && is(node.Value, []any) && nev == len(lst(node)) && len(r.Content) == forms(len(lst(node)))
  ensures items: node.Kind == KindArray && err == nil ==> forall i in 0..len(lst(node)): isRend(i, e, lst(node)[i]) && (hasForm(i) ==> 0 <= forms(i) && forms(i) < len(r.Content) && r.Content[forms(i)] == evres(i, "Rend"))
  ensures map: node.Kind == KindMap && err == nil ==> r != nil && r.Kind == yaml.MappingNode && isMap(node) && nev == omlen(mp(node)) && len(r.Content) == 2 * forms(omlen(mp(node)))
  ensures entries: node.Kind == KindMap && err == nil ==> forall i in 0..omlen(mp(node)): isRend(i, e, omget(mp(node), omkey(mp(node), i)))
          && (hasForm(i) ==> 0 <= forms(i) && 2 * forms(i) + 1 < len(r.Content) && r.Content[2 * forms(i) + 1] == evres(i, "Rend") && r.Content[2 * forms(i)].Kind == yaml.ScalarNode && r.Content[2 * forms(i)].Value == omkey(mp(node), i) && r.Content[2 * forms(i)].Tag == "")
  ensures noform: node.Kind != KindNull && node.Kind != KindBool && node.Kind != KindInt && node.Kind != KindFloat && node.Kind != KindString && node.Kind != KindArray && node.Kind != KindMap ==> nev == 0 && (!e.renderSpecialObjects ==> r == nil && err == nil)
  ensures form: err == nil && (node.Kind == KindNull || node.Kind == KindBool || node.Kind == KindInt || node.Kind == KindFloat || node.Kind == KindString || node.Kind == KindArray || node.Kind == KindMap) ==> r != nil
  inv list: node.Kind == KindArray ==> nev == $k && len(?s) == forms($k)
  inv map: node.Kind == KindMap ==> nev == $k && len(?s) == 2 * forms($k)
  inv items: node.Kind == KindArray ==> forall i in 0..$k: isRend(i, e, lst(node)[i]) && 0 <= forms(i) && forms(i) <= forms($k) && (hasForm(i) ==> forms(i) < forms($k) && ?s[forms(i)] == evres(i, "Rend"))
  inv entries: node.Kind == KindMap ==> forall i in 0..$k: isRend(i, e, omget(mp(node), omkey(mp(node), i))) && 0 <= forms(i) && forms(i) <= forms($k)
          && (hasForm(i) ==> forms(i) < forms($k) && ?s[2 * forms(i) + 1] == evres(i, "Rend"))
  inv keys: node.Kind == KindMap ==> forall i in 0..$k: hasForm(i) ==> ref(?s[2 * forms(i)]) < next() && ?s[2 * forms(i)].Kind == yaml.ScalarNode && ?s[2 * forms(i)].Value == omkey(mp(node), i) && ?s[2 * forms(i)].Tag == ""
}
