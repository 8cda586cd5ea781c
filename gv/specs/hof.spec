// C05: map, filter, reduce, pipeline call the function once per step, in order.

// the failure ev is carried by err
def carries(err, ev) = is(err, *ErrorTypeEvaluation) && (is(ev, *ErrorTypeEvaluation) ==> err.(*ErrorTypeEvaluation).Parent == ev.(*ErrorTypeEvaluation))
// the j-th call back is an application of f in the operator's scope and mode
def applies(j, e, f, env, mode) = evis(j, "Apply") && evrecv(j, "Apply") == e && evarg(j, "Apply", 0) == f && evarg(j, "Apply", 2) == env && evarg(j, "Apply", 3) == mode
def args1(j) = len(evarg(j, "Apply", 1)) == 1
def args2(j) = len(evarg(j, "Apply", 1)) == 2
def arg(j, i) = evelem(j, "Apply", 1, i)
def step1(j, e, f, env, mode, x) = applies(j, e, f, env, mode) && args1(j) && any(arg(j, 0)) == x
def unary(cdr) = len(cdr) >= 2 && isList(cdr[0])

contract op "lists.map" {
  prop C05
  ensures shape: !unary(cdr) ==> err != nil && nev == 0
  ensures calls: unary(cdr) ==> nev <= len(lst(cdr[0])) && (forall j in 0..nev: step1(j, e, cdr[1], env, mode, lst(cdr[0])[j]))
  ensures stops: forall j in 0..nev: everr(j) != nil ==> j == nev - 1 && err != nil && carries(err, everr(j))
  ensures total: unary(cdr) && err != nil ==> (nev > 0 && everr(nev - 1) != nil) || (nev < len(lst(cdr[0])) && !node(lst(cdr[0])[nev]))
  ensures value: err == nil ==> isList(r) && len(lst(r)) == len(lst(cdr[0])) && nev == len(lst(cdr[0]))
                 && (forall j in 0..nev: lst(r)[j] == any(evres(j)))
  inv count: nev == $k
  inv calls: forall j in 0..$k: step1(j, e, cdr[1], env, mode, lst(cdr[0])[j]) && everr(j) == nil
  inv value: forall j in 0..$k: ?s[j] == any(evres(j))
}

contract op "lists.filter" {
  prop C05
  sequences
  ensures shape: !unary(cdr) ==> err != nil && nev == 0
  ensures calls: unary(cdr) ==> nev <= len(lst(cdr[0])) && (forall j in 0..nev: step1(j, e, cdr[1], env, mode, lst(cdr[0])[j]))
  ensures stops: forall j in 0..nev: everr(j) != nil ==> j == nev - 1 && err != nil && carries(err, everr(j))
  ensures total: unary(cdr) && err != nil ==> (nev > 0 && (everr(nev - 1) != nil || !wellKinded(evres(nev - 1)))) || (nev < len(lst(cdr[0])) && !node(lst(cdr[0])[nev]))
  fold kept(k) seq = empty() ; if falsy(evres(k)) then kept else snoc(kept, lst(cdr[0])[k])
  ensures value: err == nil ==> isList(r) && nev == len(lst(cdr[0])) && seq(lst(r)) == kept(nev)
  inv count: nev == $k
  inv calls: forall j in 0..$k: step1(j, e, cdr[1], env, mode, lst(cdr[0])[j]) && everr(j) == nil
  inv value: seq(?s) == kept($k)
  inv noerr: forall j in 0..$k: everr(j) == nil
  inv kinds: forall j in 0..$k: wellKinded(evres(j))
}

// the accumulated value before step j
def accum(j, first) = if j == 0 then first else any(evres(j - 1))
def step2(j, e, f, env, mode, x, y) = applies(j, e, f, env, mode) && args2(j) && any(arg(j, 0)) == x && any(arg(j, 1)) == y

contract op "lists.reduce" {
  prop C05
  ensures shape: !unary(cdr) || len(lst(cdr[0])) == 0 ==> err != nil && nev == 0
  ensures calls: unary(cdr) && len(lst(cdr[0])) > 0 ==> nev < len(lst(cdr[0]))
           && (forall j in 0..nev: step2(j, e, cdr[1], env, mode, accum(j, lst(cdr[0])[0]), lst(cdr[0])[j+1]))
  ensures stops: forall j in 0..nev: everr(j) != nil ==> j == nev - 1 && err != nil && carries(err, everr(j))
  ensures total: unary(cdr) && len(lst(cdr[0])) > 0 && err != nil ==> (nev > 0 && everr(nev - 1) != nil)
           || (nev + 1 < len(lst(cdr[0])) && !node(lst(cdr[0])[nev + 1])) || !node(lst(cdr[0])[0])
  ensures value: err == nil ==> nev == len(lst(cdr[0])) - 1 && any(r) == accum(nev, lst(cdr[0])[0])
  inv count: nev == $k
  inv calls: forall j in 0..$k: step2(j, e, cdr[1], env, mode, accum(j, lst(cdr[0])[0]), lst(cdr[0])[j+1]) && everr(j) == nil
  inv value: any(?n) == accum($k, lst(cdr[0])[0])
}

contract op "pipeline" {
  prop C05
  ensures shape: len(cdr) == 0 ==> err != nil && nev == 0
  ensures calls: len(cdr) > 0 ==> nev < len(cdr) && (forall j in 0..nev: step1(j, e, cdr[j+1], env, mode, accum(j, any(cdr[0]))))
  ensures stops: forall j in 0..nev: everr(j) != nil ==> j == nev - 1 && err != nil && carries(err, everr(j))
  ensures total: len(cdr) > 0 && err != nil ==> nev > 0 && everr(nev - 1) != nil
  ensures value: err == nil ==> nev == len(cdr) - 1 && any(r) == accum(nev, any(cdr[0]))
  inv count: nev == $k
  inv calls: forall j in 0..$k: step1(j, e, cdr[j+1], env, mode, accum(j, any(cdr[0]))) && everr(j) == nil
  inv value: any(?n) == accum($k, any(cdr[0]))
}

contract op "progn" {
  prop C22
  ensures shape: len(cdr) == 0 ==> err != nil
  ensures value: len(cdr) > 0 ==> err == nil && r == cdr[len(cdr) - 1]
}
