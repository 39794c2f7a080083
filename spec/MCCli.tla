-------------------------------- MODULE MCCli --------------------------------
(* Every line of a pool of words: it is refused or spells one request, which   *)
(* can be encoded, and lines spelled out from requests are read as those.      *)
(* Integers, and texts of bytes that may not be UTF-8, over pools of bytes.    *)
(* The lines are printed, to be parsed by the real thing.                      *)
EXTENDS Cli, TLC, Json, IOUtils

Wi == INSTANCE Wire
Deep == IOEnv.DEEP = "1"

NameText(c) == One({p[1] : p \in {q \in CommandNames : q[2] = c}})
Cmds == {p[2] : p \in CommandNames}
Bogus == { <<>>, <<58>>, <<120>>, <<115,101,116,58>>, <<58,105,110,116>>, <<71,69,84>>,
           <<105,110,99,114,101,109,101,110,116,58,98,121,58,98,121>>,
           <<115,101,116,58,105,110,116,58,105,110,116>>, <<103,101,116,58,73,110,116>>,
           <<105,110,99,114,101,109,101,110,116,58>>, <<115,101,116,58,115,101,116,115>> }
Heads == {p[1] : p \in CommandNames}
         \cup {p[1] \o << Colon >> \o q[1] : p \in CommandNames, q \in TypeNames}
         \cup Bogus

One1 == <<49>>
Half == <<48,46,53>>
Words1 == { <<97>>, <<>>, One1, <<45,49>>, <<43>>, Half, TrueText, <<84,114,117,101>>,
            <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>,
            <<45,57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>,
            <<195,169>> }
Few == { <<97>>, <<>>, One1, <<120>> }
Args == { <<>> } \cup { << x >> : x \in Words1 } \cup { << x, y >> : x \in Words1, y \in Words1 }
        \cup (IF Deep THEN { << x, y, z >> : x \in Few, y \in Words1, z \in Few }
              ELSE { << <<97>>, y, z >> : y \in Few, z \in Few })
        \cup { << <<97>>, One1, One1, x >> : x \in Few }

\* As floats read the words of the pool.
FloatOf(s) == CASE s = One1 -> FOne
                [] s = <<45,49>> -> <<191, 240, 0, 0, 0, 0, 0, 0>>
                [] s = Half -> <<63, 224, 0, 0, 0, 0, 0, 0>>
                [] s = <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>> -> <<67, 224, 0, 0, 0, 0, 0, 0>>
                [] s = <<45,57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>> -> <<195, 224, 0, 0, 0, 0, 0, 0>>
                [] OTHER -> <<>>

VARIABLES head, args, done
Line == Joined(<< head >> \o args, Space)
R == Reading(Line, [i \in 1..Len(args) |-> FloatOf(args[i])])

Init == head \in Heads /\ args = <<>> /\ done = 0
Next == /\ done = 0 /\ done' = 1
        /\ args' \in Args
        /\ UNCHANGED head
        /\ PrintT(ToJson(<< Joined(<< head >> \o args', Space) >>))
Spec == Init /\ [][Next]_<< head, args, done >>

\* Splitting and joining agree.
Splits == done = 1 => Split(Line) = << head >> \o args
\* A line is refused, or its request can be built and survives being encoded.
Spells == done = 1 /\ R.no = {} =>
    /\ R.r.c \in Cmds
    /\ Len(R.r.a) <= Most(R.r.c) /\ \A i \in 1..Len(R.r.a) : R.r.a[i] # <<>>
    /\ LET q == Wi!Parse(Wi!Encode(R.r))
       IN q.r = 2 /\ q.c = R.r.c /\ q.k = R.r.k /\ q.a = R.r.a
\* Only a command's name, or with a type's, begins a line that spells anything.
Known == done = 1 /\ R.no = {} => head \in Heads \ Bogus
\* A request that a line spells, spelled out, is read as the same.
Spelled(r) ==
    LET t == IF r.k = NoType THEN KBytes ELSE r.k
        n == KeysOf(r.c, Len(r.a))
        text(i) == IF i <= n \/ t \notin {KInt, KBool, KFloat} THEN r.a[i]
                   ELSE CASE t = KInt -> IntText(r.a[i])
                          [] t = KBool -> IF r.a[i] = <<1>> THEN TrueText ELSE FalseText
                          [] OTHER -> args[i]
    IN Joined(<< NameText(r.c) \o (IF r.k = NoType THEN <<>> ELSE << Colon >> \o NameOf(r.k)) >>
              \o [i \in 1..Len(r.a) |-> text(i)], Space)
Again == done = 1 /\ R.no = {} =>
    LET q == Reading(Spelled(R.r), [i \in 1..Len(args) |-> FloatOf(args[i])])
    IN q.no = {} /\ q.r = R.r
\* Numbers and texts.
ASSUME \A x \in [1..8 -> {0, 127, 128, 255}] :
          (\A i \in 3..7 : x[i] = x[2] \/ x[i] = x[8]) => IntOf(IntText(x)) = {x}
Bytes1 == {97, 128, 143, 160, 191, 194, 224, 237, 239, 240, 244, 255}
Texts == {<<>>} \cup {<<x>> : x \in Bytes1} \cup {<<x, y>> : x \in Bytes1, y \in Bytes1}
         \cup {<<x, y, z>> : x \in Bytes1, y \in Bytes1, z \in Bytes1}
         \cup {<<x, y, z, w>> : x \in {224, 237, 240, 244}, y \in Bytes1, z \in {97, 128, 191}, w \in {97, 160}}
ASSUME \A s \in Texts : /\ CharsAll(s) = CharsFrom(s, 1, 0)
                        /\ IsUtf8(Lossy(s))
                        /\ Lossy(Lossy(s)) = Lossy(s)
                        /\ IsUtf8(s) <=> LossyFrom(s, 1) = s
=============================================================================
