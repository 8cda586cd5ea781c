// C04: list operators return exactly the documented list.

def isList(n) = n.Kind == KindArray && is(n.Value, []any)
def lst(n) = n.Value.([]any)
def node(x) = is(x, *YispNode)
def nodes(s) = forall i in 0..len(s): node(s[i])

contract op "lists.car" {
  prop C04
  ensures accepts: err == nil <==> (len(cdr) == 1 && isList(cdr[0]) && len(lst(cdr[0])) > 0 && node(lst(cdr[0])[0]))
  ensures value: err == nil ==> any(r) == lst(cdr[0])[0]
}

contract op "lists.cdr" {
  prop C04
  ensures accepts: err == nil <==> (len(cdr) == 1 && isList(cdr[0]) && len(lst(cdr[0])) > 0)
  ensures value: err == nil ==> isList(r) && len(lst(r)) == len(lst(cdr[0])) - 1
                 && (forall i in 0..len(lst(r)): lst(r)[i] == lst(cdr[0])[i+1])
  ensures own: err == nil ==> fresh(lst(r))
}

contract op "lists.cons" {
  prop C04
  ensures accepts: err == nil <==> (len(cdr) == 2 && isList(cdr[1]))
  ensures value: err == nil ==> isList(r) && len(lst(r)) == len(lst(cdr[1])) + 1 && lst(r)[0] == any(cdr[0])
                 && (forall i in 0..len(lst(cdr[1])): lst(r)[i+1] == lst(cdr[1])[i])
  inv head: ?s[0] == any(cdr[0])
  inv rest: forall i in 0..$k: ?s[i+1] == lst(cdr[1])[i]
  ensures own: err == nil ==> fresh(lst(r))
}

contract op "lists.length" {
  prop C04
  ensures accepts: err == nil <==> (len(cdr) == 1 && isList(cdr[0]))
  ensures value: err == nil ==> r.Kind == KindInt && r.Value == any(len(lst(cdr[0])))
}

contract op "lists.at" {
  prop C04
  ensures accepts: err == nil <==> (len(cdr) == 2 && isList(cdr[0]) && cdr[1].Kind == KindInt && is(cdr[1].Value, int)
       && 0 <= cdr[1].Value.(int) && cdr[1].Value.(int) < len(lst(cdr[0])) && node(lst(cdr[0])[cdr[1].Value.(int)]))
  ensures value: err == nil ==> any(r) == lst(cdr[0])[cdr[1].Value.(int)]
}

def natural(n) = is(n.Value, int) && n.Value.(int) >= 0
contract op "lists.iota" {
  prop C04
  ensures accepts: err == nil <==> (len(cdr) >= 1 && natural(cdr[0]) && (len(cdr) >= 2 ==> natural(cdr[1])))
  ensures value: err == nil ==> isList(r) && len(lst(r)) == cdr[0].Value.(int)
     && (forall i in 0..len(lst(r)): node(lst(r)[i]) && lst(r)[i].(*YispNode).Kind == KindInt
         && lst(r)[i].(*YispNode).Value == any(wadd(if len(cdr) >= 2 then cdr[1].Value.(int) else 0, i)))
  inv made: forall i in 0..$k: node(?s[i]) && ?s[i].(*YispNode).Kind == KindInt
         && ?s[i].(*YispNode).Value == any(wadd(if len(cdr) >= 2 then cdr[1].Value.(int) else 0, i))
}

contract op "lists.contains" {
  prop C04
  ensures two: len(cdr) != 2 || !isList(cdr[0]) ==> err != nil
  ensures accepts: len(cdr) == 2 && isList(cdr[0]) && nodes(lst(cdr[0])) && !uncomparable(cdr[1].Value) ==> err == nil
  ensures value: err == nil ==> isBool(r, exists i in 0..len(lst(cdr[0])): node(lst(cdr[0])[i]) && goeq(lst(cdr[0])[i].(*YispNode).Value, cdr[1].Value))
  inv absent: forall i in 0..$k: node(lst(cdr[0])[i]) && !goeq(lst(cdr[0])[i].(*YispNode).Value, cdr[1].Value)
}

// as-toplevel: arguments concatenated, one level of lists opened.
contract op "lists.as-toplevel" {
  prop C04
  sequences
  fold want(k) seq = empty() ; if cdr[k].Kind == KindArray then in(k, len(lst(cdr[k]))) else snoc(want, cdr[k])
  fold in(i, k) seq = want(i) ; snoc(in, lst(cdr[i])[k])
  ensures accepts: err == nil <==> (forall i in 0..len(cdr): cdr[i].Kind == KindArray ==> isList(cdr[i]) && nodes(lst(cdr[i])))
  ensures top: err == nil ==> isList(r) && r.IsDocumentRoot
  ensures value: err == nil ==> seq(lst(r)) == want(len(cdr))
  inv ok1: forall i in 0..$k: cdr[i].Kind == KindArray ==> isList(cdr[i]) && nodes(lst(cdr[i]))
  inv ok2: forall j in 0..$k: node(lst(cdr[$k1])[j])
  inv value1: seq(?s) == want($k)
  inv value2: seq(?s) == in($k1, $k)
}

// flatten: arguments concatenated, lists opened, and the lists among their
// items opened once more.
def flattish(n) = n.Kind == KindArray ==> isList(n) && nodes(lst(n))
def item(n, j) = lst(n)[j].(*YispNode)
def flatItems(n, m) = forall j in 0..m: node(lst(n)[j]) && flattish(item(n, j))
contract op "lists.flatten" {
  prop C04
  sequences
  fold want(k) seq = empty() ; if cdr[k].Kind == KindArray then in(k, len(lst(cdr[k]))) else snoc(want, cdr[k])
  fold in(i, k) seq = want(i) ; if item(cdr[i], k).Kind == KindArray then deep(i, k, len(lst(item(cdr[i], k)))) else snoc(in, lst(cdr[i])[k])
  fold deep(i, j, k) seq = in(i, j) ; snoc(deep, lst(item(cdr[i], j))[k])
  ensures accepts: err == nil <==> (forall i in 0..len(cdr): cdr[i].Kind == KindArray ==> isList(cdr[i]) && flatItems(cdr[i], len(lst(cdr[i]))))
  ensures value: err == nil ==> isList(r) && seq(lst(r)) == want(len(cdr))
  inv ok1: forall i in 0..$k: cdr[i].Kind == KindArray ==> isList(cdr[i]) && flatItems(cdr[i], len(lst(cdr[i])))
  inv ok2: flatItems(cdr[$k1], $k)
  inv ok3: forall l in 0..$k: node(lst(item(cdr[$k2], $k1))[l])
  inv value1: seq(?s) == want($k)
  inv value2: seq(?s) == in($k1, $k)
  inv value3: seq(?s) == deep($k2, $k1, $k)
}
