// C14, C15, C16, C17: the evaluator.
event core.Schema.Cast Cast quiet
event core.LoadSchemaFromURL SchemaURL quiet
event core.LoadSchemaFromGVK SchemaGVK quiet
event core.CallEngineByPath Load

def inMode(node, mode) = old(if node.Tag == "!quote" then EvalModeQuote else if node.Tag == "!yisp" then EvalModeEval else mode)
def code(node, mode) = inMode(node, mode) == EvalModeEval
// the value before the type check of the node's tag
def casting() = nev > 0 && evis(nev - 1, "Cast")
def raw(r) = if casting() then evarg(nev - 1, "Cast", 0) else r
// a tag that may name a type
fn hasprefix(string, string) bool;
def typeName(tag) = if hasprefix(tag, "!") then substr(tag, 1, len(tag)) else tag
def typed(tag) = typeName(tag) != "" && !hasprefix(typeName(tag), "!")
def tagged(node) = old(node.Tag != "" && node.Tag != "!quote" && node.Tag != "!yisp" && typed(node.Tag))
def isSchema(n) = n.Kind == KindType && is(n.Value, *Schema)
// events of the node's own evaluation, without those of the type check
def body(node) = if !tagged(node) then nev else if casting() then nev - 2 else nev - 1
def isEval(j, e, n, env, m) = evis(j, "Eval") && evrecv(j, "Eval") == any(e) && evarg(j, "Eval", 0) == n && evarg(j, "Eval", 1) == env && evarg(j, "Eval", 2) == m
def nth(node, j) = lst(node)[j].(*YispNode)
def word(node) = if is(nth(node, 0).Value, string) then nth(node, 0).Value.(string) else ""
def isForm(node, mode, w) = code(node, mode) && old(is(node.Value, []any) && len(lst(node)) > 0 && node(lst(node)[0]) && word(node) == w)
def plainForm(node) = old(word(node) != "if" && word(node) != "lambda" && word(node) != "import")
def call(node, mode) = old(code(node, mode) && node.Kind == KindArray && isList(node) && len(lst(node)) > 0 && nodes(lst(node)))
def atom(node) = old(node.Kind == KindNull || node.Kind == KindBool || node.Kind == KindInt || node.Kind == KindFloat || node.Kind == KindString)
fn atoi(string) int;
fn atoi_ok(string) bool;
def trueText(s) = s == "true" || s == "True" || s == "TRUE"
def boolText(n) = is(n.Value, string) && (trueText(n.Value.(string)) || n.Value.(string) == "false" || n.Value.(string) == "False" || n.Value.(string) == "FALSE")
def sameMeta(r, node) = r.Tag == node.Tag && r.Attr == node.Attr
def data(r, node) = fresh(r) && r.Kind == node.Kind && sameMeta(r, node)
def mergeKey(k) = hasprefix(k, "__YISP_MERGE_KEY__")
// what a merge key contributes
def mergeItem(n) = (n.Kind == KindMap && isMap(n)) || n.Kind == KindNull
def mergeable(n) = mergeItem(n) || (n.Kind == KindArray && isList(n) && (forall i in 0..len(lst(n)): node(lst(n)[i]) && mergeItem(lst(n)[i].(*YispNode))))
def textOf(n) = if is(n.Value, string) then n.Value.(string) else ""
def paramNode(node, i) = lst(nth(node, 1))[i].(*YispNode)
def n(node) = old(len(lst(node)))
def m(node) = old(omlen(mp(node)))
def key(node, j) = old(omkey(mp(node), j))
def entryNode(node, j) = old(omget(mp(node), omkey(mp(node), j)).(*YispNode))
def isGet(j, env, name) = evis(j, "Get") && evrecv(j, "Get") == ref(env) && evarg(j, "Get", 0) == name && evok(j)
def param(node, a, i, env, g) = is(old(paramNode(node, i).Value), string) && a.Name == old(paramNode(node, i).Value.(string))
    && (if old(typed(paramNode(node, i).Tag)) then isGet(g, env, old(typeName(paramNode(node, i).Tag))) && isSchema(evres(g, "Get")) && a.Schema == evres(g, "Get").Value.(*Schema) else a.Schema == nil)
def field(node, k) = fieldUpto(node, k, m(node))
def fieldUpto(node, k, n) = if old(omhas(mp(node), k)) && old(omidx(mp(node), k)) < n then textOf(evres(old(omidx(mp(node), k)))) else ""
def versionOf(v) = if split_len(v, "/") == 1 then splitpart(v, "/", 0) else if split_len(v, "/") == 2 then splitpart(v, "/", 1) else ""
def groupOf(v) = if split_len(v, "/") == 2 then splitpart(v, "/", 0) else ""
def fileOf(n) = if len(n.Attr.Sources) == 0 then "" else n.Attr.Sources[0].File
def importName(node, i) = old(lst(nth(node, i))[0].(*YispNode).Value.(string))
def importPath(node, i) = old(lst(nth(node, i))[1].(*YispNode).Value.(string))
def baseType(s) = s == "null" || s == "bool" || s == "int" || s == "float" || s == "string"
def load(node, j, e) = loadPath(node, j) && loadFile(node, j) && loadEngine(j, e) && loadScope(j) && loadTypes(j)
def loadPath(node, j) = old(pairOfTexts(nth(node, j + 1))) && evarg(j, "Load", 0) == importPath(node, j + 1)
def loadFile(node, j) = evarg(j, "Load", 1) == old(fileOf(nth(node, j + 1)))
def loadEngine(j, e) = evarg(j, "Load", 3) == any(e)
def loadScope(j) = fresh(evarg(j, "Load", 2)) && evenv(j, "Load", 2, "Parent") == nil
def loadTypes(j) = forall s string: evenvhas(j, "Load", 2, s) <==> baseType(s)
def pairOfTexts(n) = is(n.Value, []any) && len(lst(n)) == 2 && node(lst(n)[0]) && is(lst(n)[0].(*YispNode).Value, string) && node(lst(n)[1]) && is(lst(n)[1].(*YispNode).Value, string)
def importBound(node, env, k) = mhas(rootOf(env).Vars, importName(node, k)) && rootOf(env).Vars[importName(node, k)].Kind == KindMap && rootOf(env).Vars[importName(node, k)].Value == any(evarg(k - 1, "Load", 2).Vars)

def lambdaForm(node, mode) = call(node, mode) && old(word(node)) == "lambda"

contract engine.engine.Eval(e, node, env, mode)(r, err) {
  prop C14
  requires scope: env.Vars != nil
  sequences
  paths
  unrecorded "Native"

  // ---- C15: strict, ordered, lazy
  ensures [C15] stops: forall j in 0..nev: (evis(j, "Eval") || evis(j, "Apply") || evis(j, "Load") || evis(j, "Cast")) && everr(j) != nil ==> j == nev - 1 && err != nil
  inv {1} stops: forall j in 0..nev: everr(j) == nil
  inv {1} known: isForm(node, mode, "lambda") ==> forall j in 0..nev: ref(evres(j, "Get")) < next()
  inv {1} knownresults: !isForm(node, mode, "lambda") && !isForm(node, mode, "import") ==> forall j in 0..nev: ref(evres(j)) < next()
  inv {1} knownscopes: isForm(node, mode, "import") ==> forall j in 0..nev: ref(evarg(j, "Load", 2)) < next() && ref(evarg(j, "Load", 2).Vars) < next()
  inv {1} getsonly: isForm(node, mode, "lambda") ==> forall j in 0..nev: evis(j, "Get")
  // a call evaluates its items in order and applies the first to the rest
  ensures [C15] items: call(node, mode) && plainForm(node) ==> forall j in 0..n(node): j < nev ==> isEval(j, e, old(nth(node, j)), env, EvalModeEval)
  ensures [C15] applies: call(node, mode) && plainForm(node) && err == nil ==> body(node) == n(node) + 1
          && evis(n(node), "Apply") && evrecv(n(node), "Apply") == any(e)
          && evarg(n(node), "Apply", 0) == evres(0) && len(evarg(n(node), "Apply", 1)) == n(node) - 1
          && (forall j in 1..n(node): evelem(n(node), "Apply", 1, j - 1) == evres(j))
          && evarg(n(node), "Apply", 2) == env && evarg(n(node), "Apply", 3) == EvalModeEval
          && raw(r) == evres(n(node))
  ensures [C15] badcall: code(node, mode) && old(node.Kind) == KindArray && (!old(isList(node)) || (n(node) > 0 && !old(nodes(lst(node))))) ==> err != nil && nev == 0
  ensures [C15] empty: code(node, mode) && old(node.Kind) == KindArray && old(isList(node)) && n(node) == 0 && err == nil ==> body(node) == 0 && raw(r) == node
  inv {1} nodes: old(node.Kind) == KindArray ==> forall j in 0..$k: old(node(lst(node)[j])) && ?s[j] == old(nth(node, j))
  inv {1} count: !isForm(node, mode, "lambda") ==> nev == $k
  inv {1} evaluated: old(node.Kind) == KindArray && !isForm(node, mode, "lambda") && !isForm(node, mode, "import") ==> forall j in 0..$k: isEval(j, e, old(nth(node, j)), env, inMode(node, mode))
  inv {1} results: old(node.Kind) == KindArray && !isForm(node, mode, "lambda") && !isForm(node, mode, "import") ==> forall j in 0..$k: ?s[j] == evres(j)
  inv {1} anyresults: old(node.Kind) == KindArray && !code(node, mode) ==> forall j in 0..$k: ?s[j] == any(evres(j))

  // if: the condition once, then the chosen branch alone
  ensures [C15] ifarity: call(node, mode) && old(word(node)) == "if" && n(node) != 4 ==> err != nil && nev == 0
  ensures [C15] ifcond: !e.showTrace && call(node, mode) && old(word(node)) == "if" && n(node) == 4 ==> nev >= 1 && isEval(0, e, old(nth(node, 1)), env, EvalModeEval)
  ensures [C15] ifbranch: !e.showTrace && call(node, mode) && old(word(node)) == "if" && n(node) == 4 && everr(0) == nil && wellKinded(evres(0)) ==> nev >= 2
          && (if !falsy(evres(0)) then isEval(1, e, old(nth(node, 2)), env, EvalModeEval) else isEval(1, e, old(nth(node, 3)), env, EvalModeEval))
  ensures [C15] ifvalue: call(node, mode) && old(word(node)) == "if" && n(node) == 4 && err == nil ==> body(node) == 2 && wellKinded(evres(0)) && raw(r) == evres(1)

  // ---- C14: data is kept
  ensures [C14] scalars: atom(node) && err == nil ==> body(node) == 0 && data(raw(r), node)
  ensures [C14] null: old(node.Kind) == KindNull && err == nil ==> raw(r).Value == nil
  ensures [C14] string: old(node.Kind) == KindString && err == nil ==> raw(r).Value == node.Value
  ensures [C14] bool: old(node.Kind) == KindBool && err == nil ==> raw(r).Value == (if is(node.Value, string) then any(trueText(node.Value.(string))) else node.Value) && is(raw(r).Value, bool)
  ensures [C14] int: old(node.Kind) == KindInt && err == nil ==> is(raw(r).Value, int) && (is(node.Value, int) ==> raw(r).Value == node.Value)
          && (is(node.Value, string) && atoi_ok(node.Value.(string)) ==> raw(r).Value == any(atoi(node.Value.(string))))
  ensures [C14] float: old(node.Kind) == KindFloat && err == nil ==> is(raw(r).Value, float64) && (is(node.Value, float64) ==> raw(r).Value == node.Value)
  ensures [C14] taken: !e.showTrace && !tagged(node) && (old(node.Kind) == KindNull || old(node.Kind) == KindString || (old(node.Kind) == KindBool && (is(node.Value, bool) || boolText(node)))
          || (old(node.Kind) == KindInt && (is(node.Value, int) || (is(node.Value, string) && atoi_ok(node.Value.(string))))) || (old(node.Kind) == KindFloat && is(node.Value, float64))) ==> err == nil
  ensures [C14] list: !code(node, mode) && old(node.Kind) == KindArray && err == nil ==> old(isList(node)) && body(node) == n(node) && data(raw(r), node)
          && isList(raw(r)) && len(lst(raw(r))) == n(node)
          && (forall j in 0..n(node): isEval(j, e, old(nth(node, j)), env, inMode(node, mode)) && lst(raw(r))[j] == any(evres(j)))
  ensures [C14] map: old(node.Kind) == KindMap && err == nil ==> old(isMap(node)) && data(raw(r), node) && isMap(raw(r)) && fresh(mp(raw(r)))
          && (forall j in 0..m(node): isEval(j, e, entryNode(node, j), env, inMode(node, mode)))
  fold want(k) omap = nothing() ;
       if !mergeKey(key(node, k)) then put(want, key(node, k), any(evres(k)))
       else if evres(k).Kind == KindMap then inmap(k, omlen(mp(evres(k))))
       else if evres(k).Kind == KindArray then inlist(k, len(lst(evres(k))))
       else want
  fold inmap(i, k) omap = want(i) ; put(inmap, omkey(mp(evres(i)), k), omget(mp(evres(i)), omkey(mp(evres(i)), k)))
  fold inlist(i, k) omap = want(i) ; if nth(evres(i), k).Kind == KindMap then deep(i, k, omlen(mp(nth(evres(i), k)))) else inlist
  fold deep(i, j, k) omap = inlist(i, j) ; put(deep, omkey(mp(nth(evres(i), j)), k), omget(mp(nth(evres(i), j)), omkey(mp(nth(evres(i), j)), k)))
  ensures [C14] entries: old(node.Kind) == KindMap && err == nil ==> content(mp(raw(r))) == want(m(node))
  ensures [C14] merges: old(node.Kind) == KindMap && err == nil ==> forall j in 0..m(node): mergeKey(key(node, j)) ==> mergeable(evres(j))
  inv {1} entryevents: old(node.Kind) == KindMap ==> forall j in 0..$k: isEval(j, e, entryNode(node, j), env, inMode(node, mode))
  inv {1} want: content(?m) == want($k)
  inv {2} inmap: content(?m) == inmap($k1, $k)
  inv {2} inlist: content(?m) == inlist($k1, $k)
  inv {3} deep: content(?m) == deep($k2, $k1, $k)
  inv {2} mergelist: forall i in 0..$k: node(lst(evres($k1))[i]) && mergeItem(nth(evres($k1), i))
  inv {1} merges: old(node.Kind) == KindMap ==> forall j in 0..$k: mergeKey(key(node, j)) ==> mergeable(evres(j))

  // ---- C16: names, closures, anchors
  ensures [C16] symbol: old(node.Kind) == KindSymbol && err == nil ==> is(old(node.Value), string) && body(node) == 1 && isGet(0, env, old(node.Value.(string))) && raw(r) == evres(0, "Get")
  ensures [C16] unknown: !e.showTrace && old(node.Kind) == KindSymbol && is(old(node.Value), string) ==> evis(0, "Get") && evrecv(0, "Get") == ref(env) && evarg(0, "Get", 0) == old(node.Value.(string)) && (!evok(0) ==> err != nil)
  fold gets(k) int = 0 ; if typed(paramNode(node, k).Tag) then gets + 1 else gets
  ensures [C15] lambdalazy: isForm(node, mode, "lambda") ==> forall j in 0..nev: evis(j, "Get") || evis(j, "Cast")
  ensures [C16] lambda: lambdaForm(node, mode) && err == nil ==> n(node) >= 3 && old(is(nth(node, 1).Value, []any)) && fresh(raw(r)) && isFun(raw(r)) && sameMeta(raw(r), node)
          && fun(raw(r)).Body == old(nth(node, 2)) && len(fun(raw(r)).Arguments) == old(len(lst(nth(node, 1))))
  ensures [C16] lambdaparams: lambdaForm(node, mode) && err == nil ==> forall i in 0..old(len(lst(nth(node, 1)))): param(node, fun(raw(r)).Arguments[i], i, env, gets(i))
  ensures [C16] lambdareturns: lambdaForm(node, mode) && err == nil ==>
            (if old(typed(nth(node, 1).Tag)) then isGet(gets(old(len(lst(nth(node, 1))))), env, old(typeName(nth(node, 1).Tag))) && isSchema(evres(gets(old(len(lst(nth(node, 1))))), "Get")) && fun(raw(r)).Returns == evres(gets(old(len(lst(nth(node, 1))))), "Get").Value.(*Schema) else fun(raw(r)).Returns == nil)
  ensures [C16] closure: call(node, mode) && old(word(node)) == "lambda" && err == nil ==> fresh(fun(raw(r)).Clojure) && fun(raw(r)).Clojure.Parent == old(env.Parent) && fresh(fun(raw(r)).Clojure.Vars)
          && (forall s string: s != old(node.Anchor) || old(node.Anchor) == "" ==> (mhas(fun(raw(r)).Clojure.Vars, s) <==> mhas(env.Vars, s)) && (mhas(env.Vars, s) ==> fun(raw(r)).Clojure.Vars[s] == env.Vars[s]))
  ensures [C16] anchor: err == nil && old(node.Anchor) != "" ==> mhas(rootOf(env).Vars, old(node.Anchor)) && rootOf(env).Vars[old(node.Anchor)] == r
  ensures [C16] recursion: call(node, mode) && old(word(node)) == "lambda" && err == nil && old(node.Anchor) != "" && isFun(r) ==> fun(r).Clojure.Vars[old(node.Anchor)] == r
  allows old(rootOf(env).Vars)
  allows if isFun(r) then fun(r).Clojure.Vars else nil
  inv {1} gets: isForm(node, mode, "lambda") ==> nev == gets($k)
  inv {1} params: isForm(node, mode, "lambda") ==> len(?s) == $k && (forall i in 0..$k: (old(typed(paramNode(node, i).Tag)) ==> 0 <= gets(i) && gets(i) < nev) && param(node, ?s[i], i, env, gets(i)))

  // ---- C12: the type a node is tagged with
  ensures [C12] declared: err == nil && tagged(node) ==> nev >= 1
          && (if casting() then nev >= 2 && isGet(nev - 2, env, old(typeName(node.Tag))) && isSchema(evres(nev - 2, "Get")) && evrecv(nev - 1, "Cast") == ref(evres(nev - 2, "Get").Value.(*Schema)) && r == evres(nev - 1, "Cast")
              else evis(nev - 1, "Get") && evrecv(nev - 1, "Get") == ref(env) && evarg(nev - 1, "Get", 0) == old(typeName(node.Tag)) && !(evok(nev - 1) && isSchema(evres(nev - 1, "Get"))))

  // ---- C13: manifests get the type of their schema
  ensures [C13] schemaurl: old(node.Kind) == KindMap && err == nil && field(node, "$schema") != "" ==> body(node) == m(node) + 1 && evis(m(node), "SchemaURL") && evarg(m(node), "SchemaURL", 0) == field(node, "$schema")
          && raw(r).Type == evres(m(node), "SchemaURL") && (everr(m(node)) != nil ==> e.allowUntypedManifest)
  ensures [C13] schemagvk: old(node.Kind) == KindMap && err == nil && field(node, "$schema") == "" && field(node, "apiVersion") != "" && field(node, "kind") != "" ==> body(node) == m(node) + 1 && evis(m(node), "SchemaGVK")
          && evarg(m(node), "SchemaGVK", 2) == field(node, "kind") && evarg(m(node), "SchemaGVK", 1) == versionOf(field(node, "apiVersion")) && evarg(m(node), "SchemaGVK", 0) == groupOf(field(node, "apiVersion"))
          && raw(r).Type == evres(m(node), "SchemaGVK") && (everr(m(node)) != nil ==> e.allowUntypedManifest)
  ensures [C13] unmanaged: old(node.Kind) == KindMap && err == nil && field(node, "$schema") == "" && (field(node, "apiVersion") == "" || field(node, "kind") == "") ==> body(node) == m(node) && raw(r).Type == nil
  inv {1} f1: old(node.Kind) == KindMap ==> ?t == fieldUpto(node, "$schema", $k)
  inv {1} f2: old(node.Kind) == KindMap ==> ?t == fieldUpto(node, "apiVersion", $k)
  inv {1} f3: old(node.Kind) == KindMap ==> ?t == fieldUpto(node, "kind", $k)

  // ---- C17: imports
  ensures [C17] imports: isForm(node, mode, "import") && call(node, mode) ==> forall j in 0..nev: evis(j, "Load") ==> load(node, j, e)
  ensures [C17] imported: isForm(node, mode, "import") && call(node, mode) && err == nil ==> body(node) == n(node) - 1 && raw(r).Kind == KindNull && (forall j in 0..n(node) - 1: evis(j, "Load"))
  ensures [C17] names: isForm(node, mode, "import") && call(node, mode) && err == nil && n(node) > 1 && old(node.Anchor) == "" ==> importBound(node, env, n(node) - 1)
  inv {1} loads: isForm(node, mode, "import") ==> forall j in 0..nev: evis(j, "Load")
  inv {1} loadpairs: isForm(node, mode, "import") ==> forall j in 0..nev: old(pairOfTexts(nth(node, j + 1)))
  inv {1} loadpaths: isForm(node, mode, "import") ==> forall j in 0..nev: evarg(j, "Load", 0) == importPath(node, j + 1)
  inv {1} loadfile: isForm(node, mode, "import") ==> forall j in 0..nev: loadFile(node, j)
  inv {1} loadengine: isForm(node, mode, "import") ==> forall j in 0..nev: loadEngine(j, e)
  inv {1} loadscope: isForm(node, mode, "import") ==> forall j in 0..nev: loadScope(j)
  inv {1} loadtypes: isForm(node, mode, "import") ==> forall j in 0..nev: loadTypes(j)
  inv {1} names: isForm(node, mode, "import") && $k > 0 ==> importBound(node, env, $k) && ref(rootOf(env).Vars[importName(node, $k)]) < next()
}
