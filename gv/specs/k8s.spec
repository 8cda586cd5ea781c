// C10: patching manifests
def strField(m, k) = if omhas(m, k) && is(child(m, k).Value, string) then child(m, k).Value.(string) else ""
def meta(n) = child(mp(n), "metadata")
def metaField(n, k) = if omhas(mp(n), "metadata") then strField(mp(meta(n)), k) else ""
def identified(a, b) = strField(mp(a), "apiVersion") == strField(mp(b), "apiVersion") && strField(mp(a), "kind") == strField(mp(b), "kind")
  && metaField(a, "namespace") == metaField(b, "namespace") && metaField(a, "name") == metaField(b, "name")
def target(cdr, i) = lst(cdr[0])[i].(*YispNode)
def patch(cdr, j) = lst(cdr[1])[j].(*YispNode)
def apart(cdr) = base(lst(cdr[0])) != base(lst(cdr[1]))
// no patch before n identifies target i
def unpatched(cdr, i, n) = forall j in 0..n: !identified(patch(cdr, j), target(cdr, i))
def patched(cdr, i) = is(lst(cdr[0])[i], *YispNode) && merged(old(target(cdr, i)), old(patch(cdr, 0)), old(target(cdr, i).Type), target(cdr, i))
contract op "k8s.patch" {
  prop C10
  modifies "M:interface{}"
  ensures same: err == nil ==> r == cdr[0] && len(cdr) == 2 && isList(r)
  ensures maps: err == nil && old(apart(cdr)) && len(lst(cdr[0])) > 0 ==> forall j in 0..len(old(lst(cdr[1]))): isMap(old(patch(cdr, j)))
  ensures others: err == nil && old(apart(cdr)) ==> forall i in 0..len(old(lst(cdr[0]))): old(unpatched(cdr, i, len(lst(cdr[1])))) ==> lst(cdr[0])[i] == old(lst(cdr[0])[i])
  ensures one: err == nil && old(apart(cdr)) && len(old(lst(cdr[1]))) == 1 ==> forall i in 0..len(old(lst(cdr[0]))): old(identified(patch(cdr, 0), target(cdr, i))) ==> patched(cdr, i)
  inv {1} one: old(apart(cdr)) && $k == 1 ==> forall i in 0..len(old(lst(cdr[0]))): old(identified(patch(cdr, 0), target(cdr, i))) ==> patched(cdr, i)
  inv {2} one: old(apart(cdr)) && $k1 == 0 ==> forall i in 0..$k: old(identified(patch(cdr, 0), target(cdr, i))) ==> patched(cdr, i)
  inv {1} patches: old(apart(cdr)) ==> forall j in 0..$k: isMap(old(patch(cdr, j)))
  inv {1} others: old(apart(cdr)) ==> forall i in 0..len(old(lst(cdr[0]))): old(unpatched(cdr, i, $k)) ==> lst(cdr[0])[i] == old(lst(cdr[0])[i])
  inv {2} others: old(apart(cdr)) ==> forall i in 0..len(old(lst(cdr[0]))): old(unpatched(cdr, i, if i < $k then $k1 + 1 else $k1)) ==> lst(cdr[0])[i] == old(lst(cdr[0])[i])
  inv {0} kept: old(apart(cdr)) ==> forall j in 0..len(old(lst(cdr[1]))): lst(cdr[1])[j] == old(lst(cdr[1])[j])
}
