// C07: deep merge.
def bothMaps(d, s) = d.Kind == KindMap && s.Kind == KindMap
def bothLists(d, s) = d.Kind == KindArray && s.Kind == KindArray
def strategy(c) = if c == nil then "replace" else if c.PatchStrategy != "" then c.PatchStrategy else if c.K8sPatchStrategy != "" then c.K8sPatchStrategy else "replace"
def byKey(c) = if c == nil then "" else if c.PatchMergeKey != "" then c.PatchMergeKey else c.K8sPatchMergeKey
def sub(c, k) = if c != nil && declares(c, k) then resolved(c.Properties[k]) else nil
def itemOf(c) = if c == nil then nil else resolved(c.Items)
def child(m, k) = omget(m, k).(*YispNode)

// the entry of the result under k
def mergedAt(d, s, c, k, x) = if omhas(mp(d), k) && omhas(mp(s), k) then is(x, *YispNode) && merged(child(mp(d), k), child(mp(s), k), sub(c, k), x.(*YispNode))
  else if omhas(mp(d), k) then x == omget(mp(d), k) else x == omget(mp(s), k)
def keyed(c) = strategy(c) == "merge" && byKey(c) != ""
def itemKey(x, k) = child(mp(x.(*YispNode)), k).Value.(string)
// no right item before n has the merge key of the left item i
def unmatched(d, s, k, i, n) = forall j in 0..n: itemKey(lst(s)[j], k) != itemKey(lst(d)[i], k)
// every entry is a node
rel nodal(d *YispNode, s *YispNode) bool = (forall k string: omhas(mp(d), k) ==> is(omget(mp(d), k), *YispNode)) && (forall k string: omhas(mp(s), k) ==> is(omget(mp(s), k), *YispNode))
rel merged(d *YispNode, s *YispNode, c *Schema, r *YispNode) bool =
  if bothMaps(d, s) then r.Kind == KindMap && isMap(r) && r.Type == s.Type
    && (nodal(d, s) ==> omlen(mp(d)) <= omlen(mp(r))
      && (forall i in 0..omlen(mp(d)): omkey(mp(r), i) == omkey(mp(d), i))
      && (forall i in omlen(mp(d))..omlen(mp(r)): omhas(mp(s), omkey(mp(r), i)) && !omhas(mp(d), omkey(mp(r), i)))
      && (forall k string: omhas(mp(s), k) && !omhas(mp(d), k) ==> omhas(mp(r), k))
      && (forall i in 0..omlen(mp(r)): mergedAt(d, s, c, omkey(mp(r), i), omget(mp(r), omkey(mp(r), i)))))
  else if bothLists(d, s) then r.Kind == KindArray && isList(r) && r.Type == s.Type
    && (strategy(c) == "replace" ==> seq(lst(r)) == seq(lst(s)))
    && (strategy(c) == "merge" && byKey(c) == "" ==> len(lst(r)) == len(lst(d)) + len(lst(s)) && (forall i in 0..len(lst(d)): lst(r)[i] == lst(d)[i]) && (forall i in 0..len(lst(s)): lst(r)[len(lst(d)) + i] == lst(s)[i]))
    && (keyed(c) ==> len(lst(d)) <= len(lst(r)) && len(lst(r)) <= len(lst(d)) + len(lst(s)))
  else r == s

contract core.DeepMergeYispNode(dst, src, schema)(r, err) {
  prop C07
  modular
  nullable schema
  defines merged
  given nodes: nodal(dst, src)
  ensures merged: err == nil ==> merged(dst, src, schema, r)
  ensures right: err == nil && !old(bothMaps(dst, src)) && !old(bothLists(dst, src)) ==> r == src
  ensures strategies: bothLists(dst, src) && strategy(schema) != "replace" && strategy(schema) != "merge" ==> err != nil
  ensures untouched: err == nil && bothLists(dst, src) && keyed(schema) ==> forall i in 0..len(old(lst(dst))): old(unmatched(dst, src, byKey(schema), i, len(lst(src)))) ==> lst(r)[i] == old(lst(dst)[i])
  fold extra(k) int = 0 ; if omhas(mp(dst), omkey(mp(src), k)) then extra else extra + 1
  inv {0} left: len(?s) == $k && (forall i in 0..$k: ?s[i] == omkey(mp(dst), i))
  inv {0} distinct: forall i in 0..len(?s): forall j in 0..i: ?s[i] != ?s[j]
  inv {0} left1: omlen(mp(dst)) <= len(?s) && (forall i in 0..omlen(mp(dst)): ?s[i] == omkey(mp(dst), i))
  inv {0} has: forall k string: omhas(mp(dst), k) ==> ?s[omidx(mp(dst), k)] == k
  inv {0} count: len(?s) == omlen(mp(dst)) + extra($k)
  inv {0} fresh: forall i in omlen(mp(dst))..len(?s): !omhas(mp(dst), ?s[i]) && omhas(mp(src), ?s[i]) && omidx(mp(src), ?s[i]) < $k
  inv {0} right: forall k string: omhas(mp(src), k) && omidx(mp(src), k) < $k && !omhas(mp(dst), k) ==> 0 <= extra(omidx(mp(src), k)) && extra(omidx(mp(src), k)) < extra($k) && ?s[omlen(mp(dst)) + extra(omidx(mp(src), k))] == k
  inv {0} known: forall i in 0..len(?s): omhas(mp(dst), ?s[i]) || omhas(mp(src), ?s[i])
  inv {1} untouched: old(bothLists(dst, src)) ==> forall i in 0..len(old(lst(dst))): old(unmatched(dst, src, byKey(schema), i, $k)) ==> ?s[i] == old(lst(dst)[i])
  inv {2} untouched: old(bothLists(dst, src)) ==> forall i in 0..len(old(lst(dst))): old(unmatched(dst, src, byKey(schema), i, $k1)) ==> ?s[i] == old(lst(dst)[i])
  inv {0} sized: nodal(dst, src) ==> omlen(?m) == $k
  inv {0} keys: nodal(dst, src) ==> forall i in 0..$k: omkey(?m, i) == ?s[i]
  inv {0} values: nodal(dst, src) ==> forall i in 0..$k: mergedAt(dst, src, schema, ?s[i], omget(?m, ?s[i]))
}
contract op "maps.merge" {
  prop C07
  ensures none: len(cdr) == 0 ==> err == nil && r.Kind == KindNull
  ensures one: len(cdr) == 1 && err == nil ==> r == cdr[0]
  ensures two: len(cdr) == 2 && err == nil ==> merged(cdr[0], cdr[1], cdr[1].Type, r)
  ensures last: len(cdr) > 0 && err == nil && cdr[len(cdr) - 1].Kind != KindMap && cdr[len(cdr) - 1].Kind != KindArray ==> r == cdr[len(cdr) - 1]
  inv start: $k == 0 ==> ?n.Kind == KindNull && fresh(?n)
  inv one: $k == 1 ==> ?n == cdr[0]
  inv two: $k == 2 ==> merged(cdr[0], cdr[1], cdr[1].Type, ?n)
  inv last: $k > 0 && cdr[$k - 1].Kind != KindMap && cdr[$k - 1].Kind != KindArray ==> ?n == cdr[$k - 1]
}
