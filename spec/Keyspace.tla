------------------------------ MODULE Keyspace ------------------------------
(***************************************************************************)
(* What every data command of the server means: a keyspace is a function   *)
(* from keys to typed values with deadlines, and Apply gives the reply and *)
(* the next keyspace of one command at one clock value.                    *)
(*                                                                         *)
(* Byte strings are represented by their rank in the (sorted) set of byte  *)
(* strings of the run, so "<" on ranks is the byte order.  A stored value  *)
(* is a scalar: <<"i", a, b, c>> when it is the canonical decimal form of  *)
(* a 64-bit integer, <<"w", rank>> otherwise.  Clock values and deadlines  *)
(* are Num triples, milliseconds since the epoch.  Scores are Num triples  *)
(* counting quarters, with two sentinels for the infinities.               *)
(*                                                                         *)
(* Expired keys need no rule of their own anywhere below: Apply first      *)
(* drops every key whose deadline is not in the future, so a key past its  *)
(* deadline is by construction indistinguishable from one never set.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, Num

NoD == <<>>                                \* no deadline
PInf == <<B, 0, 0>>
NInf == <<-B - 1, 0, 0>>

Empty == [k \in {} |-> k]

(* ---------------------------------------------------------------- replies *)
Ok == [k |-> "ok", v |-> <<>>]
Nil == [k |-> "nil", v |-> <<>>]
IntR(n) == [k |-> "int", v |-> n]
SmallInt(i) == IntR(N(i))
Val(s) == [k |-> "val", v |-> s]
Arr(q) == [k |-> "arr", v |-> q]
Unordered(S) == [k |-> "set", v |-> S]
MapR(f) == [k |-> "map", v |-> f]
Err(class) == [k |-> "err", v |-> class]   \* an error reply of that class
Bad == [k |-> "bad", v |-> <<>>]           \* an error reply, or the connection is closed
AnyInt == [k |-> "anyint", v |-> <<>>]
AnyR == [k |-> "any", v |-> <<>>]
Blob(x) == [k |-> "blob", v |-> x]
WrongType == Err("wrongtype")
NilE == <<"z", "z", "z">>
Mem(r) == <<r>>                            \* key-like element of a reply
Sc(x) == <<"s", x[1], x[2], x[3]>>         \* score element of a reply
IE(i) == <<"i">> \o N(i)                   \* integer element of a reply

(* Whole contents, as taken from a snapshot: a sequence of <<key, type, value, deadline>>, values of collections as        *)
(* sequences of their elements.  What is past its deadline at now is no content.                                           *)
Image(q, now) == { <<x[1], x[2], IF x[2] \in {"str", "list"} THEN x[3] ELSE Range(x[3]), x[4]>> :
                      x \in { y \in Range(q) : y[4] = NoD \/ NLt(now, y[4]) } }
Elements(t, v) == CASE t \in {"str", "list"} -> v
                    [] t = "set" -> v
                    [] OTHER -> { <<f, v[f]>> : f \in DOMAIN v }
\* the inverse: the value that such a sequence of elements denotes
FromElements(t, q) == CASE t \in {"str", "list"} -> q
                        [] t = "set" -> Range(q)
                        [] OTHER -> [f \in { p[1] : p \in Range(q) } |-> (CHOOSE p \in Range(q) : p[1] = f)[2]]

(* Does the observed reply o satisfy the expected one x? *)
ReplyOk(x, o) ==
    CASE x.k = "any" -> o.k # "closed"
      [] x.k = "bad" -> o.k \in {"err", "closed"}
      [] x.k = "err" -> o.k = "err" /\ (x.v = "any" \/ o.v = x.v)
      [] x.k = "set" -> /\ o.k = "arr"
                        /\ Len(o.v) = Cardinality(x.v)
                        /\ Range(o.v) = x.v
      [] x.k = "map" -> /\ o.k = "arr"
                        /\ Len(o.v) = 2 * Cardinality(DOMAIN x.v)
                        /\ { <<o.v[2 * j - 1], o.v[2 * j]>> : j \in 1..(Len(o.v) \div 2) }
                             = { <<Mem(f), x.v[f]>> : f \in DOMAIN x.v }
      [] x.k = "anyint" -> o.k = "int"
      [] x.k = "blob" -> o.k = "blob"
      [] x.k = "contents" -> /\ o.k = "contents" /\ x.v = Image(o.v, x.now)
                             \* nothing is left in memory whose deadline passed at the moment dead or before
                             /\ \A y \in Range(o.v) : IF x.dead = NoD \/ y[4] = NoD THEN TRUE ELSE NLt(x.dead, y[4])
      [] OTHER -> o.k = x.k /\ o.v = x.v

(* ----------------------------------------------------------------- helpers *)
Live(kv, now) == [k \in { j \in DOMAIN kv : kv[j].d = NoD \/ NLt(now, kv[j].d) } |-> kv[k]]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
With(f, x, v) == [y \in DOMAIN f \union {x} |-> IF y = x THEN v ELSE f[y]]

Entry(t, v, d) == [t |-> t, v |-> v, d |-> d]

\* store collection value v of type t under k: an empty collection does not exist
Put(kv, k, t, v, isEmpty) ==
    IF isEmpty THEN Without(kv, {k})
    ELSE With(kv, k, Entry(t, v, IF k \in DOMAIN kv THEN kv[k].d ELSE NoD))

R(kv, r) == [kv |-> kv, r |-> r]

IsInt(s) == s[1] = "i"
IntOf(s) == <<s[2], s[3], s[4]>>
IntS(n) == <<"i", n[1], n[2], n[3]>>

\* positions start..stop (possibly negative, from the end) of a sequence of length n, as 1-based lo..hi
Span(n, start, stop) ==
    LET s0 == Clip(start)  e0 == Clip(stop)
        s1 == IF s0 < 0 THEN s0 + n ELSE s0
        e1 == IF e0 < 0 THEN e0 + n ELSE e0
        s2 == IF s1 < 0 THEN 0 ELSE s1
        e2 == IF e1 >= n THEN n - 1 ELSE e1
    IN  <<s2 + 1, e2 + 1>>                 \* empty when lo > hi
SubSpan(q, start, stop) ==
    LET p == Span(Len(q), start, stop) IN SubSeq(q, p[1], p[2])

\* type check: f is evaluated only when the key is absent or of type t
Typed(kv, k, t, f(_)) ==
    IF k \in DOMAIN kv /\ kv[k].t # t THEN R(kv, WrongType) ELSE f(kv)

(* --------------------------------------------------------------- deadlines *)
\* deadline denoted by a SET-style option, or Bad
SetDeadline(ex, now, old) ==
    IF ex = <<>> THEN [ok |-> TRUE, d |-> NoD]
    ELSE IF ex[1] = "KEEPTTL" THEN [ok |-> TRUE, d |-> old]
    ELSE LET n == <<ex[2], ex[3], ex[4]>>
             m == IF ex[1] \in {"EX", "EXAT"} THEN NMul1000(n) ELSE n
             at == IF ex[1] \in {"EX", "PX"} THEN NAdd(now, m) ELSE m
         IN  IF NLe(n, Zero) \/ ~InI64(m) \/ ~InI64(at) THEN [ok |-> FALSE, d |-> NoD]
             ELSE [ok |-> TRUE, d |-> at]

(* ----------------------------------------------------------------- strings *)
DoGet(kv, e) ==
    IF e.k \notin DOMAIN kv THEN R(kv, Nil)
    ELSE IF kv[e.k].t # "str" THEN R(kv, WrongType)
    ELSE R(kv, Val(kv[e.k].v))

DoSet(kv, now, e) ==
    LET ex == e.k \in DOMAIN kv
        dl == SetDeadline(e.ex, now, IF ex THEN kv[e.k].d ELSE NoD)
        old == IF ex THEN Val(kv[e.k].v) ELSE Nil
    IN  IF ~dl.ok THEN R(kv, Bad)
        ELSE IF e.get /\ ex /\ kv[e.k].t # "str" THEN R(kv, WrongType)
        ELSE IF (e.c = "NX" /\ ex) \/ (e.c = "XX" /\ ~ex)
             THEN R(kv, IF e.get THEN old ELSE Nil)
        ELSE R(With(kv, e.k, Entry("str", e.v, dl.d)), IF e.get THEN old ELSE Ok)

\* SET of a value of any type, as RESTORE publishes it to replicas
DoPut(kv, now, e) ==
    LET ex == e.k \in DOMAIN kv
        dl == SetDeadline(e.ex, now, IF ex THEN kv[e.k].d ELSE NoD)
    IN  IF (e.c = "NX" /\ ex) \/ (e.c = "XX" /\ ~ex) THEN R(kv, Nil)
        ELSE R(With(kv, e.k, Entry(e.t, FromElements(e.t, e.v), dl.d)), Ok)

DoIncr(kv, k, n) ==
    IF k \notin DOMAIN kv THEN R(With(kv, k, Entry("str", IntS(n), NoD)), IntR(n))
    ELSE IF kv[k].t # "str" THEN R(kv, WrongType)
    ELSE IF ~IsInt(kv[k].v) THEN R(kv, Err("any"))
    ELSE LET s == NAdd(IntOf(kv[k].v), n)
         IN  IF ~InI64(s) THEN R(kv, Err("any"))
             ELSE R([kv EXCEPT ![k].v = IntS(s)], IntR(s))

DoDel(kv, e) ==
    LET S == Range(e.ks) \intersect DOMAIN kv
    IN  R(Without(kv, S), SmallInt(Cardinality(S)))

DoExists(kv, e) ==
    R(kv, SmallInt(Cardinality({ i \in 1..Len(e.ks) : e.ks[i] \in DOMAIN kv })))

(* e.f is the set of flags as a sequence of strings; e.u \in {"s","ms"}; e.abs *)
DoExpire(kv, now, e) ==
    LET m == IF e.u = "s" THEN NMul1000(e.n) ELSE e.n
        at == IF e.abs THEN m ELSE NAdd(now, m)
        F == Range(e.f)
    IN  IF ~InI64(m) \/ ~InI64(at) THEN R(kv, Bad)
        ELSE IF e.k \notin DOMAIN kv THEN R(kv, SmallInt(0))
        ELSE LET d == kv[e.k].d
                 can == /\ ("NX" \in F => d = NoD)
                        /\ ("XX" \in F => d # NoD)
                        /\ ("GT" \in F => d # NoD /\ NLt(d, at))
                        /\ ("LT" \in F => d = NoD \/ NLt(at, d))
             IN  IF ~can THEN R(kv, SmallInt(0))
                 ELSE IF NLe(at, now) THEN R(Without(kv, {e.k}), SmallInt(1))
                 ELSE R([kv EXCEPT ![e.k].d = at], SmallInt(1))

DoTtl(kv, now, e, ms) ==
    IF e.k \notin DOMAIN kv THEN R(kv, SmallInt(-2))
    ELSE IF kv[e.k].d = NoD THEN R(kv, SmallInt(-1))
    ELSE LET rem == NSub(kv[e.k].d, now)
         IN  R(kv, IntR(IF ms THEN rem ELSE NDiv1000(NAdd(rem, N(500)))))

(* ------------------------------------------------------------------- lists *)
ListOf(kv, k) == IF k \in DOMAIN kv THEN kv[k].v ELSE <<>>

DoPush(kv0, e) == Typed(kv0, e.k, "list", LAMBDA kv :
    IF e.x /\ e.k \notin DOMAIN kv THEN R(kv, SmallInt(0))
    ELSE LET l == ListOf(kv, e.k)
             n == IF e.left THEN Reverse(e.vs) \o l ELSE l \o e.vs
         IN  R(Put(kv, e.k, "list", n, FALSE), SmallInt(Len(n))))

DoPop(kv0, e) ==
    IF NNeg0(e.n) THEN R(kv0, Bad)
    ELSE Typed(kv0, e.k, "list", LAMBDA kv :
        LET l == ListOf(kv, e.k)
            c == Min({Clip(e.n), Len(l)})
        IN  IF e.k \notin DOMAIN kv THEN R(kv, Arr(<<>>))
            ELSE IF e.left
            THEN R(Put(kv, e.k, "list", SubSeq(l, c + 1, Len(l)), c = Len(l)), Arr(SubSeq(l, 1, c)))
            ELSE R(Put(kv, e.k, "list", SubSeq(l, 1, Len(l) - c), c = Len(l)),
                   Arr(Reverse(SubSeq(l, Len(l) - c + 1, Len(l))))))

DoLlen(kv0, e) == Typed(kv0, e.k, "list", LAMBDA kv : R(kv, SmallInt(Len(ListOf(kv, e.k)))))
DoLrange(kv0, e) == Typed(kv0, e.k, "list", LAMBDA kv : R(kv, Arr(SubSpan(ListOf(kv, e.k), e.a, e.b))))

(* ------------------------------------------------------------------ hashes *)
HashOf(kv, k) == IF k \in DOMAIN kv THEN kv[k].v ELSE Empty

\* fv: sequence of <<field, value>>, later ones win
SetFields(h, fv) == FoldLeft(LAMBDA acc, p : With(acc, p[1], p[2]), h, fv)

DoHset(kv0, e) == Typed(kv0, e.k, "hash", LAMBDA kv :
    LET h == HashOf(kv, e.k)
        n == SetFields(h, e.fv)
    IN  R(Put(kv, e.k, "hash", n, FALSE),
          SmallInt(Cardinality(DOMAIN n) - Cardinality(DOMAIN h))))

DoHsetnx(kv0, e) == Typed(kv0, e.k, "hash", LAMBDA kv :
    LET h == HashOf(kv, e.k)
    IN  IF e.f \in DOMAIN h THEN R(kv, SmallInt(0))
        ELSE R(Put(kv, e.k, "hash", With(h, e.f, e.v), FALSE), SmallInt(1)))

DoHget(kv0, e) == Typed(kv0, e.k, "hash", LAMBDA kv :
    LET h == HashOf(kv, e.k)
    IN  R(kv, IF e.f \in DOMAIN h THEN Val(h[e.f]) ELSE Nil))

DoHmget(kv0, e) == Typed(kv0, e.k, "hash", LAMBDA kv :
    LET h == HashOf(kv, e.k)
    IN  R(kv, Arr([i \in 1..Len(e.fs) |-> IF e.fs[i] \in DOMAIN h THEN h[e.fs[i]] ELSE NilE])))

DoHgetall(kv0, e) == Typed(kv0, e.k, "hash", LAMBDA kv : R(kv, MapR(HashOf(kv, e.k))))

DoHexists(kv0, e) == Typed(kv0, e.k, "hash", LAMBDA kv :
    R(kv, SmallInt(IF e.f \in DOMAIN HashOf(kv, e.k) THEN 1 ELSE 0)))

DoHdel(kv0, e) == Typed(kv0, e.k, "hash", LAMBDA kv :
    LET h == HashOf(kv, e.k)
        n == Without(h, Range(e.fs))
    IN  IF e.k \notin DOMAIN kv THEN R(kv, SmallInt(0))
        ELSE R(Put(kv, e.k, "hash", n, DOMAIN n = {}),
               SmallInt(Cardinality(DOMAIN h) - Cardinality(DOMAIN n))))

DoHincrby(kv0, e) == Typed(kv0, e.k, "hash", LAMBDA kv :
    LET h == HashOf(kv, e.k)
        ok == e.f \in DOMAIN h
        s == IF ok THEN NAdd(IntOf(h[e.f]), e.n) ELSE e.n
    IN  IF ok /\ ~IsInt(h[e.f]) THEN R(kv, Err("any"))
        ELSE IF ~InI64(s) THEN R(kv, Err("any"))
        ELSE R(Put(kv, e.k, "hash", With(h, e.f, IntS(s)), FALSE), IntR(s)))

(* -------------------------------------------------------------------- sets *)
SetOf(kv, k) == IF k \in DOMAIN kv THEN kv[k].v ELSE {}

DoSadd(kv0, e) == Typed(kv0, e.k, "set", LAMBDA kv :
    LET s == SetOf(kv, e.k)
        n == s \union Range(e.ms)
    IN  R(Put(kv, e.k, "set", n, FALSE), SmallInt(Cardinality(n) - Cardinality(s))))

DoSrem(kv0, e) == Typed(kv0, e.k, "set", LAMBDA kv :
    LET s == SetOf(kv, e.k)
        n == s \ Range(e.ms)
    IN  IF e.k \notin DOMAIN kv THEN R(kv, SmallInt(0))
        ELSE R(Put(kv, e.k, "set", n, n = {}), SmallInt(Cardinality(s) - Cardinality(n))))

DoSismember(kv0, e) == Typed(kv0, e.k, "set", LAMBDA kv :
    R(kv, SmallInt(IF e.m \in SetOf(kv, e.k) THEN 1 ELSE 0)))

DoSmismember(kv0, e) == Typed(kv0, e.k, "set", LAMBDA kv :
    R(kv, Arr([i \in 1..Len(e.ms) |-> IE(IF e.ms[i] \in SetOf(kv, e.k) THEN 1 ELSE 0)])))

DoSmembers(kv0, e) == Typed(kv0, e.k, "set", LAMBDA kv :
    R(kv, Unordered({ Mem(m) : m \in SetOf(kv, e.k) })))

(* ------------------------------------------------------------- sorted sets *)
ZOf(kv, k) == IF k \in DOMAIN kv THEN kv[k].v ELSE Empty

ZLess(x, y) == NLt(x[1], y[1]) \/ (x[1] = y[1] /\ x[2] < y[2])
\* members of z in order, as <<score, member>>
ZSeq(z) == SetToSortSeq({ <<z[m], m>> : m \in DOMAIN z }, ZLess)

SAdd(x, y) == IF x \in {PInf, NInf} THEN x ELSE IF y \in {PInf, NInf} THEN y ELSE NAdd(x, y)

\* acc: [z, added, changed, nan]; p: <<score, member>>
ZStep(e, acc, p) ==
    LET z == acc.z  m == p[2]
        has == m \in DOMAIN z
        nan == e.incr /\ has /\ {z[m], p[1]} = {PInf, NInf}
        s == IF e.incr /\ has THEN SAdd(z[m], p[1]) ELSE p[1]
        can == IF has
               THEN /\ e.c # "NX"
                    /\ (e.g = "GT" => NLt(z[m], s))
                    /\ (e.g = "LT" => NLt(s, z[m]))
               ELSE e.c # "XX"
    IN  IF nan /\ e.c # "NX" THEN [acc EXCEPT !.nan = TRUE]
        ELSE IF ~can THEN acc
        ELSE [z |-> With(z, m, s),
              added |-> acc.added + (IF has THEN 0 ELSE 1),
              changed |-> acc.changed + (IF has /\ z[m] # s THEN 1 ELSE 0),
              nan |-> acc.nan, done |-> Append(acc.done, s)]

DoZadd(kv0, e) == Typed(kv0, e.k, "zset", LAMBDA kv :
    LET z == ZOf(kv, e.k)
        a == FoldLeft(LAMBDA acc, p : ZStep(e, acc, p),
                      [z |-> z, added |-> 0, changed |-> 0, nan |-> FALSE, done |-> <<>>], e.ms)
    IN  IF e.incr /\ Len(e.ms) # 1 THEN R(kv, Bad)
        ELSE IF a.nan THEN R(kv, Err("any"))
        ELSE R(Put(kv, e.k, "zset", a.z, DOMAIN a.z = {}),
               IF e.incr THEN (IF a.done = <<>> THEN Nil ELSE [k |-> "score", v |-> Sc(a.done[1])])
               ELSE SmallInt(a.added + (IF e.ch THEN a.changed ELSE 0))))

DoZrem(kv0, e) == Typed(kv0, e.k, "zset", LAMBDA kv :
    LET z == ZOf(kv, e.k)
        n == Without(z, Range(e.ms))
    IN  IF e.k \notin DOMAIN kv THEN R(kv, SmallInt(0))
        ELSE R(Put(kv, e.k, "zset", n, DOMAIN n = {}),
               SmallInt(Cardinality(DOMAIN z) - Cardinality(DOMAIN n))))

DoZrank(kv0, e) == Typed(kv0, e.k, "zset", LAMBDA kv :
    LET z == ZOf(kv, e.k)
        below == Cardinality({ m \in DOMAIN z : ZLess(<<z[m], m>>, <<z[e.m], e.m>>) })
    IN  IF e.m \notin DOMAIN z THEN R(kv, Nil)
        ELSE R(kv, SmallInt(IF e.rev THEN Cardinality(DOMAIN z) - 1 - below ELSE below)))

ScoreIn(s, lo, hi) == /\ (IF lo.x THEN NLt(lo.s, s) ELSE NLe(lo.s, s))
                      /\ (IF hi.x THEN NLt(s, hi.s) ELSE NLe(s, hi.s))
LexIn(m, lo, hi) == /\ CASE lo.t = "min" -> TRUE
                         [] lo.t = "max" -> FALSE
                         [] lo.t = "in" -> lo.w <= m
                         [] lo.t = "ex" -> lo.w < m
                    /\ CASE hi.t = "max" -> TRUE
                         [] hi.t = "min" -> FALSE
                         [] hi.t = "in" -> m <= hi.w
                         [] hi.t = "ex" -> m < hi.w

\* selection of a range command in ascending order, before REV/LIMIT; rank spans count from the reversed end with REV
ZSelect(z, e) ==
    LET q == ZSeq(z)
        dir == IF e.rev THEN Reverse(q) ELSE q
    IN  CASE e.by = "rank" -> SubSpan(dir, e.a, e.b)
          [] e.by = "score" -> SelectSeq(dir, LAMBDA p : ScoreIn(p[1], e.lo, e.hi))
          [] e.by = "lex" -> SelectSeq(dir, LAMBDA p : LexIn(p[2], e.lo, e.hi))

Limited(q, lim) ==
    IF lim = <<>> THEN q
    ELSE LET off == Clip(<<lim[1], lim[2], lim[3]>>)
             cnt == Clip(<<lim[4], lim[5], lim[6]>>)
             rest == SubSeq(q, off + 1, Len(q))
         IN  IF cnt < 0 THEN rest ELSE SubSeq(rest, 1, Min({cnt, Len(rest)}))

Scores1(z) == Cardinality({ z[m] : m \in DOMAIN z }) <= 1

DoZrange(kv0, e) == Typed(kv0, e.k, "zset", LAMBDA kv :
    LET z == ZOf(kv, e.k)
        q == Limited(ZSelect(z, e), e.lim)
    IN  IF e.by = "lex" /\ ~Scores1(z) THEN R(kv, AnyR)
        ELSE R(kv, Arr(IF e.ws
                       THEN FoldLeft(LAMBDA acc, p : acc \o <<Mem(p[2]), Sc(p[1])>>, <<>>, q)
                       ELSE [i \in 1..Len(q) |-> Mem(q[i][2])])))

DoZremrange(kv0, e) == Typed(kv0, e.k, "zset", LAMBDA kv :
    LET z == ZOf(kv, e.k)
        q == ZSelect(z, e)
        n == Without(z, { q[i][2] : i \in 1..Len(q) })
    IN  IF e.k \notin DOMAIN kv THEN R(kv, SmallInt(0))
        ELSE R(Put(kv, e.k, "zset", n, DOMAIN n = {}), SmallInt(Len(q))))

(* ----------------------------------------------------------- dump, restore *)
DoDump(kv, e) == IF e.k \notin DOMAIN kv THEN R(kv, Nil)
                 ELSE R(kv, Blob([t |-> kv[e.k].t, v |-> kv[e.k].v]))

\* blobs: payload id -> [t, v]; an id outside its domain is an undecodable payload
DoRestore(kv, now, e, blobs) ==
    LET at == IF e.n = Zero THEN Zero ELSE IF e.abs THEN e.n ELSE NAdd(now, e.n)
    IN  IF NNeg0(e.n) \/ ~InI64(at) THEN R(kv, Bad)
        ELSE IF e.k \in DOMAIN kv /\ ~e.rep
             THEN R(kv, Err(IF e.b \in DOMAIN blobs THEN "busy" ELSE "any"))
        ELSE IF e.b \notin DOMAIN blobs THEN R(kv, Err("any"))
        ELSE LET b == blobs[e.b]
             IN  R(With(kv, e.k, Entry(b.t, b.v, IF at = Zero THEN NoD ELSE at)), Ok)

(* ---------------------------------------------------------------- dispatch *)
ApplyLive(kv, now, e, blobs) ==
    CASE e.op = "get" -> DoGet(kv, e)
      [] e.op = "set" -> DoSet(kv, now, e)
      [] e.op = "incrby" -> DoIncr(kv, e.k, e.n)
      [] e.op = "decrby" -> IF InI64(NNeg(e.n)) THEN DoIncr(kv, e.k, NNeg(e.n))
                            ELSE R(kv, Err("any"))
      [] e.op = "del" -> DoDel(kv, e)
      [] e.op = "exists" -> DoExists(kv, e)
      [] e.op = "expire" -> DoExpire(kv, now, e)
      [] e.op = "ttl" -> DoTtl(kv, now, e, FALSE)
      [] e.op = "pttl" -> DoTtl(kv, now, e, TRUE)
      [] e.op = "push" -> DoPush(kv, e)
      [] e.op = "pop" -> DoPop(kv, e)
      [] e.op = "llen" -> DoLlen(kv, e)
      [] e.op = "lrange" -> DoLrange(kv, e)
      [] e.op = "hset" -> DoHset(kv, e)
      [] e.op = "hsetnx" -> DoHsetnx(kv, e)
      [] e.op = "hget" -> DoHget(kv, e)
      [] e.op = "hmget" -> DoHmget(kv, e)
      [] e.op = "hgetall" -> DoHgetall(kv, e)
      [] e.op = "hexists" -> DoHexists(kv, e)
      [] e.op = "hdel" -> DoHdel(kv, e)
      [] e.op = "hincrby" -> DoHincrby(kv, e)
      [] e.op = "sadd" -> DoSadd(kv, e)
      [] e.op = "srem" -> DoSrem(kv, e)
      [] e.op = "sismember" -> DoSismember(kv, e)
      [] e.op = "smismember" -> DoSmismember(kv, e)
      [] e.op = "smembers" -> DoSmembers(kv, e)
      [] e.op = "zadd" -> DoZadd(kv, e)
      [] e.op = "zrem" -> DoZrem(kv, e)
      [] e.op = "zrank" -> DoZrank(kv, e)
      [] e.op = "zrange" -> DoZrange(kv, e)
      [] e.op = "zremrange" -> DoZremrange(kv, e)
      [] e.op = "dump" -> DoDump(kv, e)
      [] e.op = "restore" -> DoRestore(kv, now, e, blobs)
      [] e.op = "put" -> DoPut(kv, now, e)
      [] e.op = "contents" -> R(kv, [k |-> "contents", now |-> now, dead |-> IF "dead" \in DOMAIN e THEN e.dead ELSE NoD,
                                     v |-> { <<k, kv[k].t, Elements(kv[k].t, kv[k].v), kv[k].d>> : k \in DOMAIN kv }])
      [] e.op = "flushall" -> R(Empty, Ok)
      [] e.op = "objinfo" -> R(kv, IF e.k \in DOMAIN kv THEN AnyInt ELSE Err("any"))
      [] e.op = "debugobj" -> R(kv, IF e.k \in DOMAIN kv THEN Ok ELSE Err("any"))
      [] e.op = "ping" -> R(kv, [k |-> "pong", v |-> <<>>])
      [] e.op = "config" -> R(kv, Ok)
      [] e.op = "info" -> R(kv, AnyR)
      [] e.op = "unknown" -> R(kv, Err("any"))
      [] e.op = "malformed" -> R(kv, Bad)

Apply(kv, now, e, blobs) == ApplyLive(Live(kv, now), now, e, blobs)
=============================================================================
