// C12: casting. Neither the value nor the schema is changed, so both are read
// in the heap at the call; the nodes built are not changed once returned.
def demands(s, k) = exists i in 0..len(s.Required): s.Required[i] == k
def property(s, k) = if holds(s.Properties, k) then s.Properties[k] else nil
def given(n) = if n.Value == nil then 0 else omlen(entries(n))
def supplied(n, k) = n.Value != nil && omhas(entries(n), k)
def sameBut(r, n) = r.Kind == n.Kind && r.Tag == n.Tag && r.Anchor == n.Anchor && r.Attr == n.Attr

def composable(p) = forall k string: holds(p.Properties, k) ==> !demands(p, k) && (property(p, k) == nil || property(p, k).Default == nil || importable(property(p, k).Default))
// certainly provides a default: one is given, or it is an object that can be
// made of the defaults of its properties
rel provides(p *Schema) bool = p != nil && (p.Default != nil
  || p.Type == "object" && composable(p)
     && (exists k string: holds(p.Properties, k) && provides(property(p, k))))

// the node a missing property is filled in with
def defaultValue(p, r) = if is(p.Default, float64) && p.Type != "float" && r.Kind == KindInt then is(r.Value, int) && feq(i2f(r.Value.(int)), p.Default.(float64))
  else if is(p.Default, map[string]any) then r.Kind == KindMap && is(r.Value, *YispMap) && sameEntries("", dict(p.Default), entries(r))
  else if is(p.Default, []any) then r.Kind == KindArray && is(r.Value, []any) && len(r.Value.([]any)) == len(arr(p.Default)) && sameItems("", arr(p.Default), r.Value.([]any), len(arr(p.Default)))
  else (is(p.Default, bool) ==> r.Kind == KindBool) && (whole(p.Default) ==> r.Kind == KindInt) && (real(p.Default) ==> r.Kind == KindFloat) && (is(p.Default, string) ==> r.Kind == KindString)
    && (is(p.Default, bool) || whole(p.Default) || real(p.Default) || is(p.Default, string) ==> r.Value == p.Default)
rel filling(p *Schema, r *YispNode) bool = p != nil
  && (if p.Default != nil then r.Type == p && defaultValue(p, r)
      else p.Type == "object" && r.Kind == KindMap && is(r.Value, *YispMap) && omlen(entries(r)) > 0 && added(p, 0, entries(r)))

// the entries of m from position n on are what was missing, in order of their names
def added(s, n, m) = addedValues(s, n, m) && ordered(n, m)
def addedValues(s, n, m) = forall i in n..omlen(m): property(s, omkey(m, i)) != nil && !demands(s, omkey(m, i)) && is(omget(m, omkey(m, i)), *YispNode) && filling(property(s, omkey(m, i)), omget(m, omkey(m, i)).(*YispNode))
def ordered(n, m) = forall i in n..omlen(m): forall j in i+1..omlen(m): strlt(omkey(m, i), omkey(m, j))
def kept2(s, k, v, w) = if property(s, k) == nil then w == v else is(v, *YispNode) && is(w, *YispNode) && defaulted(property(s, k), v.(*YispNode), w.(*YispNode))
def given2(s, n, m, k) = forall i in 0..k: omkey(m, i) == omkey(entries(n), i) && kept2(s, omkey(m, i), omget(entries(n), omkey(m, i)), omget(m, omkey(m, i)))

rel defaulted(s *Schema, n *YispNode, r *YispNode) bool =
  if s.Type == "array" then n.Kind == KindArray
    && (if s.Items == nil then r == n
        else is(n.Value, []any) && is(r.Value, []any) && sameBut(r, n) && len(r.Value.([]any)) == len(n.Value.([]any)) && filledItems(s, n.Value.([]any), r.Value.([]any), len(n.Value.([]any))))
  else if s.Type == "object" then n.Kind == KindMap && (n.Value == nil || is(n.Value, *YispMap)) && is(r.Value, *YispMap) && sameBut(r, n)
    && given(n) <= omlen(entries(r)) && given2(s, n, entries(r), given(n)) && added(s, given(n), entries(r))
    && (forall k string: holds(s.Properties, k) && !supplied(n, k) ==> !demands(s, k) && (provides(property(s, k)) ==> omhas(entries(r), k)))
  else r == n
def filledItems(s, a, b, n) = forall i in 0..n: is(a[i], *YispNode) && is(b[i], *YispNode) && defaulted(s.Items, a[i].(*YispNode), b[i].(*YispNode))

contract core.Schema.InterpolateDefaults(s, node)(r, err) {
  prop C12
  modular
  paths
  defines defaulted
  ensures filled: err == nil ==> defaulted(s, node, r)
  ensures shape: err == nil ==> unfold(defaulted(s, node, r))
  ensures total: s.Type != "array" && s.Type != "object" ==> err == nil
  ensures composed: s.Type == "object" && node.Kind == KindMap && node.Value == nil && composable(s) ==> err == nil
  inv items: filledItems(s, node.Value.([]any), ?s, $k)
  inv count: omlen(?m) == $k
  inv given: given2(s, node, ?m, $k)
  inv allcount: given(node) <= omlen(?m)
  inv allgiven: given2(s, node, ?m, given(node))
  inv member: forall k string: supplied(node, k) ==> omhas(?m, k)
  inv added: addedValues(s, given(node), ?m)
  inv ordered: ordered(given(node), ?m)
  inv sorted: forall i in given(node)..omlen(?m): forall j in $k..len(ranged()): strlt(omkey(?m, i), ranged()[j])
  inv complete: forall j in 0..$k: !supplied(node, ranged()[j]) ==> !demands(s, ranged()[j]) && (provides(property(s, ranged()[j])) ==> omhas(?m, ranged()[j]))
}

contract core.Schema.defaultNode(s, parent)(r, err) {
  prop C12
  modular
  maybenil
  nullable s
  paths
  defines filling
  defines provides
  ensures typed: r != nil ==> s != nil
  ensures either: err != nil ==> r == nil
  ensures filled: r != nil ==> filling(s, r)
  ensures provided: err == nil && r == nil ==> !provides(s)
  ensures fails: err != nil ==> s != nil && s.Default != nil && !importable(s.Default)
}

// the result is the value with its defaults filled in, but for its type
def castOf(s, n, r) =
  if s.Type == "array" && s.Items != nil then n.Kind == KindArray && is(n.Value, []any) && is(r.Value, []any) && len(r.Value.([]any)) == len(n.Value.([]any)) && filledItems(s, n.Value.([]any), r.Value.([]any), len(n.Value.([]any)))
  else if s.Type == "object" then is(r.Value, *YispMap) && given(n) <= omlen(entries(r)) && given2(s, n, entries(r), given(n)) && added(s, given(n), entries(r))
    && (forall k string: holds(s.Properties, k) && !supplied(n, k) ==> !demands(s, k) && (provides(property(s, k)) ==> omhas(entries(r), k)))
  else r.Value == n.Value
contract core.Schema.Cast(s, node)(r, err) {
  prop C12
  ensures conforms: err == nil ==> conforms(s, r)
  ensures type: err == nil ==> fresh(r) && r.Type == s
  ensures same: err == nil ==> sameBut(r, node)
  ensures filled: err == nil ==> castOf(s, node, r)
}
