// C01: arithmetic is the fold of 64-bit wrapping integer operations over the
// argument list; any non-integer argument (or a zero divisor) is an error.

def allInt(s, n) = forall i in 0..n: is(s[i].Value, int)
def fromInt(s, a, n) = forall i in a..n: is(s[i].Value, int)
def isInt(r, v) = r.Kind == KindInt && r.Value == any(v)

contract op "+" "add" {
  prop C01
  fold sum(k) int = 0 ; wadd(sum, cdr[k].Value.(int))
  ensures accepts: err == nil <==> allInt(cdr, len(cdr))
  ensures value: err == nil ==> isInt(r, sum(len(cdr)))
  inv ints: allInt(cdr, $k)
  inv acc: ?i == sum($k)
}

contract op "*" "mul" {
  prop C01
  fold prod(k) int = 1 ; wmul(prod, cdr[k].Value.(int))
  ensures accepts: err == nil <==> allInt(cdr, len(cdr))
  ensures value: err == nil ==> isInt(r, prod(len(cdr)))
  inv ints: allInt(cdr, $k)
  inv acc: ?i == prod($k)
}

contract op "-" "sub" {
  prop C01
  fold dif(k) int = 0 ; if k == 0 then cdr[0].Value.(int) else wsub(dif, cdr[k].Value.(int))
  ensures accepts: err == nil <==> allInt(cdr, len(cdr))
  ensures value: err == nil ==> isInt(r, dif(len(cdr)))
  inv ints: allInt(cdr, $k)
  inv ints1: allInt(cdr, $k + 1)
  inv acc: ?i == dif($k)
  inv acc1: ?i == dif($k + 1)
}

contract op "/" "div" {
  prop C01
  fold quo(k) int = 0 ; if k == 0 then cdr[0].Value.(int) else wdiv(quo, cdr[k].Value.(int))
  ensures accepts: err == nil <==> allInt(cdr, len(cdr)) && (forall i in 1..len(cdr): cdr[i].Value.(int) != 0)
  ensures value: err == nil ==> isInt(r, quo(len(cdr)))
  inv ints: allInt(cdr, $k)
  inv ints1: allInt(cdr, $k + 1)
  inv nz: forall i in 1..$k: cdr[i].Value.(int) != 0
  inv nz1: forall i in 1..$k + 1: cdr[i].Value.(int) != 0
  inv acc: ?i == quo($k)
  inv acc1: ?i == quo($k + 1)
}
