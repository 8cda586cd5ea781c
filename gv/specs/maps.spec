// C06: map operators keep keys, values and order.

def isMap(n) = is(n.Value, *YispMap)
def mp(n) = n.Value.(*YispMap)
def oneMap(cdr) = len(cdr) == 1 && isMap(cdr[0])

contract op "maps.get" {
  prop C06
  ensures accepts: err == nil <==> (len(cdr) == 2 && isMap(cdr[0]) && text(cdr[1]) && omhas(mp(cdr[0]), str(cdr[1])) && node(omget(mp(cdr[0]), str(cdr[1]))))
  ensures value: err == nil ==> any(r) == omget(mp(cdr[0]), str(cdr[1]))
}

contract op "maps.keys" {
  prop C06
  ensures accepts: err == nil <==> oneMap(cdr)
  ensures value: err == nil ==> isList(r) && len(lst(r)) == omlen(mp(cdr[0]))
      && (forall i in 0..len(lst(r)): node(lst(r)[i]) && isStr(lst(r)[i].(*YispNode), omkey(mp(cdr[0]), i)))
  inv made: len(?s) == $k && (forall i in 0..$k: node(?s[i]) && isStr(?s[i].(*YispNode), omkey(mp(cdr[0]), i)))
}

contract op "maps.values" {
  prop C06
  ensures accepts: err == nil <==> oneMap(cdr)
  ensures value: err == nil ==> isList(r) && len(lst(r)) == omlen(mp(cdr[0]))
      && (forall i in 0..len(lst(r)): lst(r)[i] == omget(mp(cdr[0]), omkey(mp(cdr[0]), i)))
  inv made: len(?s) == $k && (forall i in 0..$k: ?s[i] == omget(mp(cdr[0]), omkey(mp(cdr[0]), i)))
}

// an entry is the two-element list of key and value
def entry(x, k, v) = node(x) && isList(x.(*YispNode)) && len(lst(x.(*YispNode))) == 2 && node(lst(x.(*YispNode))[0])
    && isStr(lst(x.(*YispNode))[0].(*YispNode), k) && lst(x.(*YispNode))[1] == v
contract op "maps.to-entries" {
  prop C06
  ensures accepts: err == nil <==> oneMap(cdr)
  ensures value: err == nil ==> isList(r) && len(lst(r)) == omlen(mp(cdr[0]))
      && (forall i in 0..len(lst(r)): entry(lst(r)[i], omkey(mp(cdr[0]), i), omget(mp(cdr[0]), omkey(mp(cdr[0]), i))))
  inv length: len(?s) == $k
  inv apart: forall i in 0..$k: ref(?s[i]) < next() && base(lst(?s[i].(*YispNode))) != base(?s) && base(lst(?s[i].(*YispNode))) < next() && ref(lst(?s[i].(*YispNode))[0]) < next()
  inv made: forall i in 0..$k: entry(?s[i], omkey(mp(cdr[0]), i), omget(mp(cdr[0]), omkey(mp(cdr[0]), i)))
}

// from-entries: the pairs set one after the other.
def pair(x) = node(x) && is(x.(*YispNode).Value, []any) && len(lst(x.(*YispNode))) == 2 && node(lst(x.(*YispNode))[0]) && text(lst(x.(*YispNode))[0].(*YispNode))
def pairKey(x) = str(lst(x.(*YispNode))[0].(*YispNode))
def pairVal(x) = lst(x.(*YispNode))[1]
def src(cdr) = lst(cdr[0])
contract op "maps.from-entries" {
  prop C06
  ensures accepts: err == nil ==> len(cdr) >= 1 && is(cdr[0].Value, []any) && (forall i in 0..len(src(cdr)): pair(src(cdr)[i]))
  ensures decided: len(cdr) == 1 && is(cdr[0].Value, []any) && (forall i in 0..len(src(cdr)): pair(src(cdr)[i])) ==> err == nil
  ensures map: err == nil ==> r.Kind == KindMap && isMap(r) && fresh(mp(r))
  sequences
  fold want(k) omap = nothing() ; put(want, pairKey(src(cdr)[k]), pairVal(src(cdr)[k]))
  ensures value: err == nil ==> content(mp(r)) == want(len(src(cdr)))
  inv pairs: forall i in 0..$k: pair(src(cdr)[i])
  inv value: content(?m) == want($k)
}

def keyText(n) = if text(n) then str(n) else ""
contract op "maps.make" {
  prop C06
  sequences
  fold want(k) omap = nothing() ; put(want, keyText(cdr[2*k]), cdr[2*k+1])
  ensures accepts: err == nil ==> (forall i in 0..len(cdr): 2*i < len(cdr) ==> cdr[2*i].Kind == KindString && 2*i+1 < len(cdr))
  ensures decided: (forall i in 0..len(cdr): 2*i < len(cdr) ==> cdr[2*i].Kind == KindString && 2*i+1 < len(cdr)) ==> err == nil
  ensures map: err == nil ==> r.Kind == KindMap && isMap(r) && fresh(mp(r))
  ensures value: err == nil ==> (forall h in 0..len(cdr)+1: 2*h == len(cdr) ==> content(mp(r)) == want(h))
  inv step: ?i == 2*$k && ?i <= len(cdr) + 1
  inv keys: forall i in 0..$k: cdr[2*i].Kind == KindString && 2*i+1 < len(cdr)
  inv value: content(?m) == want($k)
}
