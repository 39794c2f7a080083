--------------------------------- MODULE Cli ---------------------------------
(* The command line: which request a line spells, as what a line that spells   *)
(* none is refused, and which text the answer to a request is printed as.      *)
(* Lines and texts are byte strings (of UTF-8).                                *)
EXTENDS Hop

Colon == 58
Space == 32
Newline == 10

\* The commands and the types as they are spelled, in the order
\* append decrement:by decrement delete echo exists get increment:by increment is keys length rename set stats type,
\* boolean bool bytes float integer int list map set string str.
CommandNames ==
    { << <<97,112,112,101,110,100>>, CAppend >>,
      << <<100,101,99,114,101,109,101,110,116,58,98,121>>, CDecBy >>,
      << <<100,101,99,114,101,109,101,110,116>>, CDec >>,
      << <<100,101,108,101,116,101>>, CDelete >>,
      << <<101,99,104,111>>, CEcho >>,
      << <<101,120,105,115,116,115>>, CExists >>,
      << <<103,101,116>>, CGet >>,
      << <<105,110,99,114,101,109,101,110,116,58,98,121>>, CIncBy >>,
      << <<105,110,99,114,101,109,101,110,116>>, CInc >>,
      << <<105,115>>, CIs >>,
      << <<107,101,121,115>>, CKeys >>,
      << <<108,101,110,103,116,104>>, CLength >>,
      << <<114,101,110,97,109,101>>, CRename >>,
      << <<115,101,116>>, CSet >>,
      << <<115,116,97,116,115>>, CStats >>,
      << <<116,121,112,101>>, CType >> }
TypeNames ==
    { << <<98,111,111,108,101,97,110>>, KBool >>,
      << <<98,111,111,108>>, KBool >>,
      << <<98,121,116,101,115>>, KBytes >>,
      << <<102,108,111,97,116>>, KFloat >>,
      << <<105,110,116,101,103,101,114>>, KInt >>,
      << <<105,110,116>>, KInt >>,
      << <<108,105,115,116>>, KList >>,
      << <<109,97,112>>, KMap >>,
      << <<115,101,116>>, KSet >>,
      << <<115,116,114,105,110,103>>, KString >>,
      << <<115,116,114>>, KString >> }
\* As which a type is shown: bool bytes float int list map set str.
NameOf(t) ==
    CASE t = KBool -> <<98,111,111,108>>
      [] t = KBytes -> <<98,121,116,101,115>>
      [] t = KFloat -> <<102,108,111,97,116>>
      [] t = KInt -> <<105,110,116>>
      [] t = KList -> <<108,105,115,116>>
      [] t = KMap -> <<109,97,112>>
      [] t = KSet -> <<115,101,116>>
      [] t = KString -> <<115,116,114>>

Ranks(s, x) == {i \in 1..Len(s) : s[i] = x}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

\* The pieces between single spaces: one more than there are spaces.
Split(s) ==
    LET at == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = Space)
        n == Len(at) + 1
    IN [i \in 1..n |-> SubSeq(s, IF i = 1 THEN 1 ELSE at[i - 1] + 1, IF i = n THEN Len(s) ELSE at[i] - 1)]

Named2(names, s) == {p[2] : p \in {q \in names : q[1] = s}}
One(S) == CHOOSE x \in S : TRUE

\* [c, k] of the first piece; c = -1: it names no command. A command's name may
\* have a colon in it; what follows the last one is a type otherwise.
CommandOf(s) ==
    LET whole == Named2(CommandNames, s)
        colons == Ranks(s, Colon)
    IN IF whole # {} THEN [c |-> One(whole), k |-> NoType]
       ELSE IF colons = {} THEN [c |-> -1, k |-> NoType]
       ELSE LET i == Max(colons)
                c == Named2(CommandNames, SubSeq(s, 1, i - 1))
                k == Named2(TypeNames, SubSeq(s, i + 1, Len(s)))
            IN IF c = {} \/ k = {} THEN [c |-> -1, k |-> NoType]
               ELSE [c |-> One(c), k |-> One(k)]

(* ------------------------------- numbers -------------------------------- *)
Digit(b) == b \in 48..57
RECURSIVE Times10(_, _, _)
Times10(x, i, carry) ==     \* << x * 10 + carry of 8 bytes, whether it was too much >>
    IF i = 0 THEN << x, carry # 0 >>
    ELSE LET p == x[i] * 10 + carry
         IN Times10([x EXCEPT ![i] = p % 256], i - 1, p \div 256)
RECURSIVE Digits(_, _, _)
Digits(s, i, acc) ==        \* the digits from i on, as 8 bytes and whether it is too much
    IF i > Len(s) THEN acc
    ELSE LET t == Times10(acc[1], 8, s[i] - 48)
         IN Digits(s, i + 1, << t[1], acc[2] \/ t[2] >>)

MinInt == <<128, 0, 0, 0, 0, 0, 0, 0>>
Sign(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN s[1] ELSE 0
Unsigned(s) == IF Sign(s) = 0 THEN s ELSE Tail(s)
\* A 64-bit integer, if it is one: {} or {8 bytes}.
IntOf(s) ==
    LET u == Unsigned(s)
        d == Digits(u, 1, << Zero8, FALSE >>)
    IN IF u = <<>> \/ ~(\A i \in 1..Len(u) : Digit(u[i])) THEN {}
       ELSE IF d[2] THEN {}
       ELSE IF Sign(s) = 45 THEN (IF d[1][1] < 128 \/ d[1] = MinInt THEN {Neg64(d[1])} ELSE {})
       ELSE IF d[1][1] < 128 THEN {d[1]} ELSE {}

RECURSIVE Over10(_, _, _)
Over10(x, i, rest) ==       \* << x \div 10, x % 10 >>
    IF i > 8 THEN << x, rest >>
    ELSE LET n == rest * 256 + x[i] IN Over10([x EXCEPT ![i] = n \div 10], i + 1, n % 10)
RECURSIVE Natural(_)
Natural(x) == LET q == Over10(x, 1, 0)
              IN (IF q[1] = Zero8 THEN <<>> ELSE Natural(q[1])) \o << 48 + q[2] >>
IntText(x) == IF x[1] >= 128 THEN <<45>> \o Natural(Neg64(x)) ELSE Natural(x)

TrueText == <<116,114,117,101>>
FalseText == <<102,97,108,115,101>>

(* -------------------------------- lines --------------------------------- *)
\* What a line is refused as.
ArgumentInvalid == 1
ArgumentEmpty == 2
TooManyArguments == 3
InvalidCommand == 5
KeyMissing == 6
MapIncomplete == 7
NoCommand == 8
No(e, x, t) == [e |-> e, x |-> x, t |-> t]

\* How many arguments are keys, which are taken as they are.
KeysOf(c, n) == CASE c \in {CEcho, CStats} -> 0
                  [] c = CRename -> 2
                  [] c \in {CExists, CIs} -> n
                  [] OTHER -> 1

\* An argument converted: {} or {its bytes}. f is the argument read as a float,
\* <<>> if it isn't one.
Convert(t, s, f) ==
    CASE t = KBool -> IF s = TrueText THEN {<<1>>} ELSE IF s = FalseText THEN {<<0>>} ELSE {}
      [] t = KInt -> IntOf(s)
      [] t = KFloat -> IF f = <<>> THEN {} ELSE {FCanon(f)}
      [] OTHER -> {s}

Most(c) == IF c = CStats THEN 0 ELSE 255

\* A line whose arguments are read as the floats fs: [no |-> what it may be
\* refused as, r |-> the request it spells if it isn't].
Reading(line, fs) ==
    LET ps == Split(line)
        name == ps[1]
        args == Tail(ps)
        cmd == CommandOf(name)
        t == IF cmd.k = NoType THEN KBytes ELSE cmd.k
        n == KeysOf(cmd.c, Len(args))
        given == IF Len(args) > n THEN (n + 1)..Len(args) ELSE {}
        made == [i \in 1..Len(args) |-> IF i <= n THEN {args[i]} ELSE Convert(t, args[i], fs[i])]
        bad == {i \in given : made[i] = {}}
        no == IF name = <<>> THEN {No(NoCommand, <<>>, -1)}
              ELSE IF cmd.c = -1 THEN {No(InvalidCommand, name, -1)}
              ELSE IF args = <<>> THEN {}
              ELSE (IF Len(args) < n THEN {No(KeyMissing, <<>>, -1)} ELSE {})
                   \cup {No(ArgumentInvalid, args[i], t) : i \in bad}
                   \cup (IF t = KMap /\ Cardinality(given) % 2 = 1
                         THEN {No(MapIncomplete, Last(args), -1)} ELSE {})
                   \cup (IF \E i \in 1..Len(args) : args[i] = <<>> /\ i \notin bad
                         THEN {No(ArgumentEmpty, <<>>, -1)} ELSE {})
                   \cup (IF Len(args) > Most(cmd.c) THEN {No(TooManyArguments, <<>>, -1)} ELSE {})
    IN [no |-> no,
        r |-> [c |-> cmd.c, k |-> cmd.k,
               a |-> IF no # {} THEN <<>> ELSE [i \in 1..Len(args) |-> One(made[i])]]]

(* ------------------------------- printing ------------------------------- *)
\* UTF-8 in which what isn't is replaced by U+FFFD, one for every longest
\* beginning of a character.
Replacement == <<239, 191, 189>>
Second(b) ==     \* what may come second after b
    CASE b \in 194..223 -> 128..191
      [] b = 224 -> 160..191
      [] b \in 225..236 \cup {238, 239} -> 128..191
      [] b = 237 -> 128..159
      [] b = 240 -> 144..191
      [] b \in 241..243 -> 128..191
      [] b = 244 -> 128..143
      [] OTHER -> {}
Size(b) == CASE b < 128 -> 1 [] b \in 194..223 -> 2 [] b \in 224..239 -> 3 [] b \in 240..244 -> 4 [] OTHER -> 0
\* How many bytes from i on belong to the character begun there.
Good(s, i) ==
    LET n == Size(s[i])
        ok(j) == i + j <= Len(s) /\ (IF j = 1 THEN s[i + 1] \in Second(s[i]) ELSE s[i + j] \in 128..191)
    IN IF n <= 1 THEN 1
       ELSE IF ~ok(1) THEN 1 ELSE IF n = 2 \/ ~ok(2) THEN 2 ELSE IF n = 3 \/ ~ok(3) THEN 3 ELSE 4
RECURSIVE LossyFrom(_, _)
LossyFrom(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE LET n == Good(s, i)
         IN (IF n = Size(s[i]) THEN SubSeq(s, i, i + n - 1) ELSE Replacement) \o LossyFrom(s, i + n)
Lossy(s) == IF IsUtf8(s) THEN s ELSE LossyFrom(s, 1)

RECURSIVE Joined(_, _)
Joined(ss, sep) ==
    IF ss = <<>> THEN <<>>
    ELSE IF Len(ss) = 1 THEN ss[1]
    ELSE ss[1] \o << sep >> \o Joined(Tail(ss), sep)

Begins(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* Whether s is the lines in some order: a bag of them, as different things
\* can look the same.
RECURSIVE Lines(_, _)
Lines(s, bag) ==
    IF bag = <<>> THEN s = <<>>
    ELSE \E i \in 1..Len(bag) :
            LET x == bag[i]
                rest == SubSeq(bag, 1, i - 1) \o SubSeq(bag, i + 1, Len(bag))
            IN IF Len(bag) = 1 THEN s = x
               ELSE /\ Begins(s, x \o << Newline >>)
                    /\ Lines(SubSeq(s, Len(x) + 2, Len(s)), rest)

\* The same, of many things without line breaks in them.
RECURSIVE CutAt(_, _, _)
CutAt(s, from, cuts) ==
    IF cuts = {} THEN << SubSeq(s, from, Len(s)) >>
    ELSE LET c == CHOOSE c \in cuts : \A d \in cuts : c <= d
         IN << SubSeq(s, from, c - 1) >> \o CutAt(s, c + 1, cuts \ {c})
SameBag(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A x \in Range(a) : Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
LinesOf(s, some) ==
    LET bag == some \o <<>>
    IN IF Len(bag) > 8 /\ (\A i \in 1..Len(bag) : \A k \in 1..Len(bag[i]) : bag[i][k] # Newline)
       THEN SameBag(CutAt(s, 1, {k \in 1..Len(s) : s[k] = Newline}), bag)
       ELSE Lines(s, bag)

RECURSIVE Enumerate(_)
Enumerate(S) == IF S = {} THEN <<>> ELSE LET x == One(S) IN << x >> \o Enumerate(S \ {x})

\* Whether b is the text of a value; f is b read as a float.
Shows(v, b, f) ==
    CASE v.t = KBool -> b = IF v.v = <<1>> THEN TrueText ELSE FalseText
      [] v.t = KInt -> b = IntText(v.v)
      [] v.t = KFloat -> f # <<>> /\ FCanon(f) = v.v
      [] v.t \in {KBytes, KString} -> b = Lossy(v.v)
      [] v.t = KList -> b = Joined([i \in 1..Len(v.v) |-> Lossy(v.v[i])] \o <<>>, Newline)
      [] v.t = KSet -> LET s == Enumerate(v.v) IN LinesOf(b, [i \in 1..Len(s) |-> Lossy(s[i])])
      [] v.t = KMap -> LET s == Enumerate(v.v)
                       IN LinesOf(b, [i \in 1..Len(s) |-> Lossy(s[i][1]) \o <<61>> \o Lossy(s[i][2])])

Label1 == <<67,111,109,109,97,110,100,115,32,115,117,99,99,101,115,115,102,117,108,58,32>>     \* "Commands successful: "
Label2 == <<67,111,109,109,97,110,100,115,32,101,114,114,111,114,101,100,58,32>>     \* "Commands errored: "
Label3 == <<83,101,115,115,105,111,110,115,32,115,116,97,114,116,101,100,58,32>>     \* "Sessions started: "
Label4 == <<83,101,115,115,105,111,110,115,32,101,110,100,101,100,58,32>>     \* "Sessions ended: "
\* n: the counters as they were one successful command earlier.
ShowsStats(n, b) ==
    b = Joined(<< Label1 \o IntText(Add64(n[1], One8)), Label2 \o IntText(n[2]),
                  Label3 \o IntText(n[3]), Label4 \o IntText(n[4]) >>, Newline)

ShowsAnswer(r, v, b, f) ==
    CASE r.c = CEcho -> b = Lossy(Joined(v.v, Space))
      [] r.c = CType -> b = NameOf(v.v[8])
      [] r.c = CKeys -> LET s == Enumerate(v.v) IN LinesOf(b, [i \in 1..Len(s) |-> Lossy(s[i])])
      [] OTHER -> Shows(v, b, f)

\* The errors of the store in words.
Words(e) ==
    CASE e = EArgument -> "Too few arguments were provided for this command."
      [] e = ENoKey -> "Specifying a key is required."
      [] e = EDifferent -> "The type of the key is different than specified by the command."
      [] e = EUnexpected -> "A key type was specified when the command can't be given one."
      [] e = EPrecondition -> "A precondition failed, such as the key not existing."
      [] e = ENonexistent -> "The specified key does not exist."
      [] e = ERequired -> "A key type was required but one was not specified."
      [] e = EInvalid -> "A key type was provided that isn't supported by the command."

\* A request that lacks keys can be refused in these words instead.
LacksKeys(r) == r.a = <<>> /\ r.c \notin {CEcho, CStats}
KeyWords == { Words(ENoKey), Words(EArgument), "A minimum of at least one key or more is required.",
              "The source key name is required.", "The destination key name is required." }
\* Errors that say of a request what is wrong with it, whatever the store has.
Faults(r) ==
    (IF r.k # NoType /\ r.c \in {CDelete, CExists, CRename, CStats, CType} THEN {Words(EUnexpected)} ELSE {})
    \cup (IF r.k = NoType /\ r.c = CIs THEN {Words(ERequired)} ELSE {})
    \cup (IF LacksKeys(r) THEN KeyWords ELSE {})
    \cup (IF r.k # NoType /\ ((r.c = CKeys /\ r.k # KMap) \/ (r.c = CLength /\ r.k \in {KBool, KFloat, KInt}))
          THEN {Words(EInvalid)} ELSE {})
    \* keys is of maps, said or unsaid.
=============================================================================
