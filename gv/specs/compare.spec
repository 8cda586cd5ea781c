// C02: comparisons. C03: logic.

def isBool(r, v) = r.Kind == KindBool && r.Value == any(v)
def num(v) = is(v, int) || is(v, float64)
def flo(v) = if is(v, int) then i2f(v.(int)) else v.(float64)
def numeq(a, b) = if is(a, int) && is(b, int) then a.(int) == b.(int) else feq(flo(a), flo(b))
def numlt(a, b) = if is(a, int) && is(b, int) then a.(int) < b.(int) else flt(flo(a), flo(b))
def scalar(v) = num(v) || is(v, string) || is(v, bool) || v == nil

def eqv(a, b) = if num(a) && num(b) then numeq(a, b)
                else if is(a, string) && is(b, string) then a.(string) == b.(string)
                else if is(a, bool) && is(b, bool) then a.(bool) == b.(bool)
                else a == nil && b == nil

contract op "==" "eq" {
  prop C02
  ensures two: len(cdr) != 2 ==> err != nil
  ensures decided: len(cdr) == 2 && (scalar(cdr[0].Value) || scalar(cdr[1].Value)) ==> err == nil
  ensures value: len(cdr) == 2 && (scalar(cdr[0].Value) || scalar(cdr[1].Value)) ==> isBool(r, eqv(cdr[0].Value, cdr[1].Value))
  ensures boolean: err == nil ==> r.Kind == KindBool && is(r.Value, bool)
}

contract op "!=" "neq" {
  prop C02
  ensures two: len(cdr) != 2 ==> err != nil
  ensures decided: len(cdr) == 2 && (scalar(cdr[0].Value) || scalar(cdr[1].Value)) ==> err == nil
  ensures value: len(cdr) == 2 && (scalar(cdr[0].Value) || scalar(cdr[1].Value)) ==> isBool(r, !eqv(cdr[0].Value, cdr[1].Value))
  ensures boolean: err == nil ==> r.Kind == KindBool && is(r.Value, bool)
}

def twonums(cdr) = len(cdr) == 2 && num(cdr[0].Value) && num(cdr[1].Value)

contract op "<" "lt" {
  prop C02
  ensures accepts: err == nil <==> twonums(cdr)
  ensures value: err == nil ==> isBool(r, numlt(cdr[0].Value, cdr[1].Value))
}
contract op ">" "gt" {
  prop C02
  ensures accepts: err == nil <==> twonums(cdr)
  ensures value: err == nil ==> isBool(r, numlt(cdr[1].Value, cdr[0].Value))
}
contract op "<=" "lte" {
  prop C02
  ensures accepts: err == nil <==> twonums(cdr)
  ensures value: err == nil ==> isBool(r, numlt(cdr[0].Value, cdr[1].Value) || numeq(cdr[0].Value, cdr[1].Value))
}
contract op ">=" "gte" {
  prop C02
  ensures accepts: err == nil <==> twonums(cdr)
  ensures value: err == nil ==> isBool(r, numlt(cdr[1].Value, cdr[0].Value) || numeq(cdr[0].Value, cdr[1].Value))
}

def wellKinded(n) =
  if n.Kind == KindBool then is(n.Value, bool)
  else if n.Kind == KindInt then is(n.Value, int)
  else if n.Kind == KindFloat then is(n.Value, float64)
  else if n.Kind == KindString then is(n.Value, string)
  else if n.Kind == KindArray then is(n.Value, []any)
  else if n.Kind == KindMap then is(n.Value, *YispMap)
  else true

def knownKind(n) = KindSymbol <= n.Kind && n.Kind <= KindType

def falsy(n) =
  if n.Kind == KindNull then true
  else if n.Kind == KindBool then !(n.Value.(bool))
  else if n.Kind == KindInt then n.Value.(int) == 0
  else if n.Kind == KindFloat then feq(n.Value.(float64), fzero())
  else if n.Kind == KindString then n.Value.(string) == ""
  else if n.Kind == KindArray then len(n.Value.([]any)) == 0
  else if n.Kind == KindMap then len(n.Value.(*YispMap)) == 0
  else !knownKind(n) && n.Value == nil


contract core.IsTruthy(n)(b, err) {
  prop C03
  ensures accepts: wellKinded(n) <==> err == nil
  ensures value: err == nil ==> b == !falsy(n)
}

def clean(s) = forall i in 0..len(s): wellKinded(s[i])

contract op "&&" "and" {
  prop C03
  ensures accepts: clean(cdr) ==> err == nil
  ensures value: clean(cdr) ==> isBool(r, forall i in 0..len(cdr): !falsy(cdr[i]))
  ensures early: err != nil ==> exists i in 0..len(cdr): !wellKinded(cdr[i])
  inv prefix: clean(cdr) ==> (forall i in 0..$k: !falsy(cdr[i]))
}
contract op "||" "or" {
  prop C03
  ensures accepts: clean(cdr) ==> err == nil
  ensures value: clean(cdr) ==> isBool(r, exists i in 0..len(cdr): !falsy(cdr[i]))
  ensures early: err != nil ==> exists i in 0..len(cdr): !wellKinded(cdr[i])
  inv prefix: clean(cdr) ==> (forall i in 0..$k: falsy(cdr[i]))
}
contract op "!" "not" {
  prop C03
  ensures one: len(cdr) != 1 ==> err != nil
  ensures accepts: len(cdr) == 1 ==> (err == nil <==> wellKinded(cdr[0]))
  ensures value: err == nil ==> isBool(r, falsy(cdr[0]))
}
contract op "??" "default" {
  prop C03
  ensures never_fails: err == nil
  ensures none: (forall i in 0..len(cdr): cdr[i].Kind == KindNull) ==> r.Kind == KindNull && r.Value == nil
  ensures first: forall j in 0..len(cdr): cdr[j].Kind != KindNull && (forall i in 0..j: cdr[i].Kind == KindNull) ==> r == cdr[j]
  inv nulls: forall i in 0..$k: cdr[i].Kind == KindNull
}
