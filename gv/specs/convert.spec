// C24: decoded JSON and YAML data. The data is not changed, so it is read in
// the heap at the call.
def fromFile(r, f) = len(r.Attr.Sources) == 1 && r.Attr.Sources[0].File == f
def whole(v) = is(v, int) || is(v, int8) || is(v, int16) || is(v, int32) || is(v, int64) || is(v, uint) || is(v, uint8) || is(v, uint16) || is(v, uint32) || is(v, uint64)
def real(v) = is(v, float64) || is(v, float32)
def dict(v) = v.(map[string]any)
def arr(v) = v.([]any)

// importable: what a decoder can produce
rel importable(v any) bool = v == nil || is(v, bool) || whole(v) || real(v) || is(v, string)
  || is(v, map[string]any) && (forall k string: mhas(dict(v), k) ==> importable(dict(v)[k]))
  || is(v, []any) && (forall i in 0..len(arr(v)): importable(arr(v)[i]))

rel converted(f string, v any, r *YispNode) bool = fromFile(r, f) && r.Tag == "" && r.Anchor == ""
  && (if v == nil then r.Kind == KindNull && r.Value == nil
      else if is(v, bool) then r.Kind == KindBool && r.Value == v
      else if whole(v) then r.Kind == KindInt && r.Value == v
      else if real(v) then r.Kind == KindFloat && r.Value == v
      else if is(v, string) then r.Kind == KindString && r.Value == v
      else if is(v, map[string]any) then r.Kind == KindMap && is(r.Value, *YispMap) && sameEntries(f, dict(v), r.Value.(*YispMap))
      else is(v, []any) ==> r.Kind == KindArray && is(r.Value, []any) && sameItems(f, arr(v), r.Value.([]any), len(arr(v))) && len(r.Value.([]any)) == len(arr(v)))
def sameItems(f, a, b, n) = forall i in 0..n: is(b[i], *YispNode) && converted(f, a[i], b[i].(*YispNode))
def sameEntries(f, d, m) = (forall k string: omhas(m, k) <==> holds(d, k))
  && (forall k string: holds(d, k) ==> is(omget(m, k), *YispNode) && converted(f, d[k], omget(m, k).(*YispNode)))
  && (forall i in 0..omlen(m): forall j in i+1..omlen(m): strlt(omkey(m, i), omkey(m, j)))

contract core.ParseAny(filename, v)(r, err) {
  prop C24
  modular
  defines converted
  defines importable
  ensures fresh: err == nil ==> fresh(r)
  ensures converted: err == nil ==> converted(filename, v, r)
  ensures shape: err == nil ==> unfold(converted(filename, v, r))
  ensures total: importable(v) ==> err == nil
  inv count: omlen(?m) == $k
  inv keys: forall i in 0..$k: omkey(?m, i) == ranged()[i]
  inv entries: forall i in 0..$k: is(omget(?m, ranged()[i]), *YispNode) && converted(filename, dict(v)[ranged()[i]], omget(?m, ranged()[i]).(*YispNode))
  inv items: sameItems(filename, arr(v), ?s, $k)
}
