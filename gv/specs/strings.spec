// C21: string operators. The library functions they are documented as are
// named, not defined, here: strcontains is strings.Contains and so on.

fn strcontains(string, string) bool;
fn toupper(string) string;
fn tolower(string) string;
fn trimspace(string) string;
fn replacen(string, string, string, int) string;
fn strjoinq(seq, string) string;
fn sprintfq(string, seq) string;
fn split_len(string, string) int;

def isStr(r, v) = r.Kind == KindString && r.Value == any(v)
def text(n) = is(n.Value, string)
def str(n) = n.Value.(string)

contract op "strings.concat" {
  prop C21
  fold all(k) string = "" ; cat(all, str(cdr[k]))
  ensures accepts: err == nil <==> (forall i in 0..len(cdr): text(cdr[i]))
  ensures value: err == nil ==> isStr(r, all(len(cdr)))
  inv texts: forall i in 0..$k: text(cdr[i])
  inv acc: ?t == all($k)
}

contract op "strings.contains" {
  prop C21
  ensures accepts: err == nil <==> (len(cdr) == 2 && text(cdr[0]) && text(cdr[1]))
  ensures value: err == nil ==> isBool(r, strcontains(str(cdr[0]), str(cdr[1])))
}

def textNode(x) = node(x) && x.(*YispNode).Kind == KindString && text(x.(*YispNode))
contract op "strings.join" {
  prop C21
  sequences
  fold parts(k) seq = empty() ; snoc(parts, lst(cdr[0])[k].(*YispNode).Value)
  ensures accepts: err == nil <==> (len(cdr) == 2 && text(cdr[1]) && is(cdr[0].Value, []any) && (forall i in 0..len(lst(cdr[0])): textNode(lst(cdr[0])[i])))
  ensures value: err == nil ==> isStr(r, strjoinq(parts(len(lst(cdr[0]))), str(cdr[1])))
  inv texts: forall i in 0..$k: textNode(lst(cdr[0])[i])
  inv parts: seqn(?s, $k) == parts($k)
}

contract op "strings.split" {
  prop C21
  ensures accepts: err == nil <==> (len(cdr) == 2 && text(cdr[0]) && text(cdr[1]))
  ensures value: err == nil ==> isList(r) && len(lst(r)) == split_len(str(cdr[0]), str(cdr[1]))
       && (forall i in 0..len(lst(r)): node(lst(r)[i]) && isStr(lst(r)[i].(*YispNode), splitpart(str(cdr[0]), str(cdr[1]), i)))
  inv made: forall i in 0..$k: node(?s[i]) && isStr(?s[i].(*YispNode), splitpart(str(cdr[0]), str(cdr[1]), i))
}

def times(cdr) = if len(cdr) == 4 then cdr[3].Value.(int) else 0 - 1
contract op "strings.replace" {
  prop C21
  ensures few: len(cdr) < 3 ==> err != nil
  ensures accepts: (len(cdr) == 3 || len(cdr) == 4) ==> (err == nil <==> (text(cdr[0]) && text(cdr[1]) && text(cdr[2]) && (len(cdr) == 4 ==> cdr[3].Kind == KindInt && is(cdr[3].Value, int))))
  ensures value: err == nil && len(cdr) <= 4 ==> isStr(r, replacen(str(cdr[0]), str(cdr[1]), str(cdr[2]), times(cdr)))
}

def oneText(cdr) = len(cdr) == 1 && cdr[0].Kind == KindString && text(cdr[0])
contract op "strings.toUpper" {
  prop C21
  ensures accepts: err == nil <==> oneText(cdr)
  ensures value: err == nil ==> isStr(r, toupper(str(cdr[0])))
}
contract op "strings.toLower" {
  prop C21
  ensures accepts: err == nil <==> oneText(cdr)
  ensures value: err == nil ==> isStr(r, tolower(str(cdr[0])))
}
contract op "strings.trim" {
  prop C21
  ensures accepts: err == nil <==> oneText(cdr)
  ensures value: err == nil ==> isStr(r, trimspace(str(cdr[0])))
}
contract op "strings.sha256" {
  prop C21
  ensures accepts: err == nil <==> oneText(cdr)
  ensures value: err == nil ==> isStr(r, sha256hex(str(cdr[0])))
}
contract op "strings.format" {
  prop C21
  sequences
  fold vals(k) seq = empty() ; snoc(vals, cdr[k+1].Value)
  ensures accepts: err == nil <==> (len(cdr) >= 1 && text(cdr[0]))
  ensures value: err == nil ==> isStr(r, sprintfq(str(cdr[0]), vals(len(cdr) - 1)))
  inv vals: seqn(?s, $k) == vals($k)
}
contract op "strings.quote" {
  prop C21
  ensures accepts: err == nil <==> len(cdr) == 1
  ensures kind: err == nil ==> r.Kind == KindString && text(r)
}
