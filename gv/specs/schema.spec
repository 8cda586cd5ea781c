// C11: schema validation. Validation writes to no value, so values are read in
// the heap at the call.
fn refLoads(string) bool;
fn refSchema(string) *Schema;
fn fmod(float64, float64) float64;

contract core.LoadSchemaFromID(id)(r, err) {
  prop C11
  trusted "reads the schema cache under the home directory: the schema is a function of the id while a document is validated"
  ensures loads: err == nil <==> refLoads(id)
  ensures value: err == nil ==> r != nil && r == refSchema(id)
}

// the schema a property or item schema stands for; nil when its reference cannot be loaded
def resolved(s) = if s != nil && s.Ref != "" then (if refLoads(s.Ref) then refSchema(s.Ref) else nil) else s
def holds(m, k) = m != nil && mhas(m, k)
def declares(s, k) = holds(s.Properties, k) && (s.Properties[k] == nil || s.Properties[k].Ref == "" || refLoads(s.Properties[k].Ref))
contract core.Schema.GetProperties(s)(r) {
  prop C11 C07
  modular
  ensures keys: fresh(r) && (forall k string: mhas(r, k) <==> declares(s, k))
  ensures values: forall k string: mhas(r, k) ==> r[k] == resolved(s.Properties[k])
  inv keys: forall k string: mhas(?g, k) <==> declares(s, k) && rank(k) < $k
  inv values: forall k string: mhas(?g, k) ==> ?g[k] == resolved(s.Properties[k])
}
contract core.Schema.GetItems(s)(r) {
  prop C11 C07
  modular
  maybenil
  ensures items: r == resolved(s.Items)
}

def entries(n) = n.Value.(*YispMap)

// what undeclared properties may be: a boolean, or the schema they conform to
fn extraOf(any) any;
def additional(s) = if s.AdditionalProperties == nil then any(false) else if is(s.AdditionalProperties, bool) then s.AdditionalProperties else extraOf(s.AdditionalProperties)
contract core.Schema.GetAdditionalProperties(s)(r) {
  prop C11
  modular
  maybenil
  ensures absent: s.AdditionalProperties == nil ==> r == any(false)
  ensures flag: is(s.AdditionalProperties, bool) ==> r == s.AdditionalProperties
  assumes parsed: s.AdditionalProperties != nil && !is(s.AdditionalProperties, bool) ==> r == extraOf(s.AdditionalProperties)
}

rel sameType(s *Schema, o *Schema) bool =
  if s == nil || o == nil then s == nil && o == nil
  else s.Type == o.Type
    && (s.Type == "any" || s.Type == "null" || s.Type == "boolean" || s.Type == "integer" || s.Type == "float" || s.Type == "string"
      || s.Type == "array" && (if s.Items == nil || o.Items == nil then s.Items == nil && o.Items == nil else sameType(s.Items, o.Items))
      || s.Type == "object" && len(s.Properties) == len(o.Properties)
         && (forall k string: holds(s.Properties, k) ==> holds(o.Properties, k) && sameType(s.Properties[k], o.Properties[k]))
      || s.Type == "function" && len(s.Arguments) == len(o.Arguments)
         && (forall i in 0..len(s.Arguments): sameType(s.Arguments[i], o.Arguments[i]))
         && (if s.Returns == nil || o.Returns == nil then s.Returns == nil && o.Returns == nil else sameType(s.Returns, o.Returns)))

contract core.Schema.Equals(s, other)(r) {
  prop C11
  modular
  nullable s
  nullable other
  defines sameType
  ensures decides: r <==> sameType(s, other)
  inv included: forall k string: holds(s.Properties, k) && rank(k) < $k ==> holds(other.Properties, k) && sameType(s.Properties[k], other.Properties[k])
  inv keys: forall k string: holds(s.Properties, k) && rank(k) < $k ==> holds(other.Properties, k)
  inv arguments: forall i in 0..$k: sameType(s.Arguments[i], other.Arguments[i])
}

def bounds(s, x) = (s.Minimum == nil || !flt(x, *s.Minimum)) && (s.Maximum == nil || !flt(*s.Maximum, x))
  && (s.ExclusiveMinimum == nil || !fle(x, *s.ExclusiveMinimum)) && (s.ExclusiveMaximum == nil || !fle(*s.ExclusiveMaximum, x))
def integral(s, i) = bounds(s, i2f(i)) && (s.MultipleOf == nil || *s.MultipleOf != 0 && wrem(i, *s.MultipleOf) == 0)
def floating(s, f) = bounds(s, f) && (s.MultipleOf == nil || feq(fmod(f, i2f(*s.MultipleOf)), fzero()))
def sized(s, t) = (s.MinLength == nil || *s.MinLength <= len(t)) && (s.MaxLength == nil || len(t) <= *s.MaxLength)
def elements(s, arr) = forall i in 0..len(arr): is(arr[i], *YispNode) && conforms(resolved(s.Items), arr[i].(*YispNode))
def complete(s, m) = forall i in 0..len(s.Required): omhas(m, s.Required[i])
def declared(s, m) = forall k string: declares(s, k) && omhas(m, k) ==> is(omget(m, k), *YispNode) && conforms(resolved(s.Properties[k]), omget(m, k).(*YispNode))
def undeclared(s, m, k) = omhas(m, k) && !declares(s, k) && k != "$schema"
def extraok(x, v) = if is(x, bool) then x.(bool) else is(x, *Schema) && is(v, *YispNode) && conforms(x.(*Schema), v.(*YispNode))
def extras(s, m) = forall k string: undeclared(s, m, k) ==> extraok(additional(s), omget(m, k))
def properties(s, m) = complete(s, m) && declared(s, m) && extras(s, m)
def signature(s, f) = len(f.Arguments) == len(s.Arguments)
  && (forall i in 0..len(s.Arguments): f.Arguments[i].Schema == nil || sameType(s.Arguments[i], f.Arguments[i].Schema))
  && (s.Returns == nil || f.Returns == nil || sameType(s.Returns, f.Returns))

rel conforms(s *Schema, n *YispNode) bool =
  if s == nil then false
  else if s.OneOf != nil then (exists i in 0..len(s.OneOf): conforms(s.OneOf[i], n))
  else s.Type == "any"
    || s.Type == "null" && n.Kind == KindNull
    || s.Type == "boolean" && n.Kind == KindBool
    || s.Type == "integer" && n.Kind == KindInt && is(n.Value, int) && integral(s, n.Value.(int))
    || s.Type == "float" && n.Kind == KindFloat && is(n.Value, float64) && floating(s, n.Value.(float64))
    || s.Type == "string" && (n.Kind == KindString && is(n.Value, string) && sized(s, n.Value.(string)) || n.Kind == KindInt && s.Format == "int-or-string")
    || s.Type == "array" && n.Kind == KindArray && (s.Items == nil || is(n.Value, []any) && elements(s, n.Value.([]any)))
    || s.Type == "object" && n.Kind == KindMap && is(n.Value, *YispMap) && properties(s, n.Value.(*YispMap))
    || s.Type == "function" && n.Kind == KindLambda && is(n.Value, *Lambda) && signature(s, n.Value.(*Lambda))

contract core.Schema.Validate(s, node)(err) {
  prop C11
  modular
  nullable s
  paths
  defines conforms
  ensures decides: err == nil <==> conforms(s, node)
  inv tried: forall i in 0..$k: !conforms(s.OneOf[i], node)
  inv elements: forall i in 0..$k: is(node.Value.([]any)[i], *YispNode) && conforms(resolved(s.Items), node.Value.([]any)[i].(*YispNode))
  inv required: forall i in 0..$k: omhas(entries(node), s.Required[i])
  inv seen: forall k string: mhas(?g, k) <==> declares(s, k) && omhas(entries(node), k) && rank(k) < $k
  inv checked: forall k string: declares(s, k) && omhas(entries(node), k) && rank(k) < $k ==> is(omget(entries(node), k), *YispNode) && conforms(resolved(s.Properties[k]), omget(entries(node), k).(*YispNode))
  inv left: forall k string: omhas(?m, k) <==> undeclared(s, entries(node), k) && omidx(entries(node), k) < $k
  inv leftvalue: forall k string: omhas(?m, k) ==> omget(?m, k) == omget(entries(node), k)
  inv leftfirst: 0 < omlen(?m) ==> undeclared(s, entries(node), omkey(?m, 0))
  inv extras: forall i in 0..$k: is(omget(?m, omkey(?m, i)), *YispNode) && conforms(additional(s).(*Schema), omget(?m, omkey(?m, i)).(*YispNode))
  inv signature: forall i in 0..$k: node.Value.(*Lambda).Arguments[i].Schema == nil || sameType(s.Arguments[i], node.Value.(*Lambda).Arguments[i].Schema)
}
