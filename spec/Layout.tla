------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The published layouts, shared by the DataSketches libraries of every    *)
(* language: which sequence of bytes an abstract content is written as.    *)
(* Numbers of 8 bytes and floating point numbers appear as their bytes,    *)
(* least significant first.  Where a layout leaves the order of entries    *)
(* open (hash tables, unordered sketches), Is admits every order.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* ---- bytes -------------------------------------------------------------*)
RECURSIVE LE(_, _)
LE(n, k) == IF k = 0 THEN <<>> ELSE <<n % 256>> \o LE(n \div 256, k - 1)
Zeros(k) == [i \in 1 .. k |-> 0]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
If(b, v) == IF b THEN v ELSE 0
Starts(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
From(s, i) == SubSeq(s, i, Len(s))
Full == <<255, 255, 255, 255, 255, 255, 255, 127>>    \* theta of 1
(* body is the concatenation of the chunks[i], i in left, in some order    *)
RECURSIVE AnyOrder(_, _, _)
AnyOrder(body, chunks, left) ==
    IF left = {} THEN body = <<>>
    ELSE \E c \in {chunks[i] : i \in left} :
           Starts(c, body) /\ AnyOrder(From(body, Len(c) + 1), chunks, left \ {CHOOSE i \in left : chunks[i] = c})
RangeOf(s) == {s[i] : i \in DOMAIN s}
Entries(ord, body, chunks) == IF ord THEN body = Cat(chunks) ELSE AnyOrder(body, chunks, DOMAIN chunks)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

(* ---- theta -------------------------------------------------------------*)
(* c: [emp, ord, sh, theta, hs]                                            *)
Est(c) == c.theta # Full
(* One entry is in order, whatever is said.                                *)
ThetaFlags(c, f) == f \in {2 + 8 + If(c.emp, 4) + If(o, 16) : o \in IF Len(c.hs) <= 1 THEN {TRUE, FALSE} ELSE {c.ord}}
ThetaPre(c) == IF ~c.emp /\ Est(c) THEN 3 ELSE IF c.emp \/ (Len(c.hs) = 1) THEN 1 ELSE 2
Count(c, n) == IF n > 1 THEN LE(Len(c.hs), 4) \o Zeros(4) ELSE <<>>
Theta3Head(c, f) ==
    LET n == ThetaPre(c) IN <<n, 3, 3, 0, 0, f>> \o c.sh \o Count(c, n) \o (IF n = 3 THEN c.theta ELSE <<>>)
Theta3(c, img) ==
    LET head == Theta3Head(c, img[6])
    IN ThetaFlags(c, img[6]) /\ Starts(head, img) /\ Entries(c.ord, From(img, Len(head) + 1), c.hs)
(* Before: always three longs, no seed; then as many as needed, no flags.  *)
Theta1(c, img) ==
    LET head == LE(Len(c.hs), 4) \o Zeros(4) \o c.theta
    IN Starts(<<3, 1, 3>>, img) /\ Starts(head, From(img, 9)) /\ Entries(c.ord, From(img, 25), c.hs)
Theta2(c, img) ==
    LET n == IF Est(c) THEN 3 ELSE IF c.hs = <<>> THEN 1 ELSE 2
        head == c.sh \o Count(c, n) \o (IF n = 3 THEN c.theta ELSE <<>>)
    IN Starts(<<n, 2, 3>>, img) /\ Starts(head, From(img, 7)) /\ Entries(c.ord, From(img, 7 + Len(head)), c.hs)

(* Compressed: the differences of the sorted hashes, each in as many bits  *)
(* as the largest needs, most significant bit first.                       *)
RECURSIVE Minus(_, _, _, _)
Minus(x, y, i, borrow) ==
    IF i > 8 THEN <<>>
    ELSE LET d == x[i] - y[i] - borrow
         IN <<IF d < 0 THEN d + 256 ELSE d>> \o Minus(x, y, i + 1, IF d < 0 THEN 1 ELSE 0)
Deltas(hs) == [i \in DOMAIN hs |-> Minus(hs[i], IF i = 1 THEN Zeros(8) ELSE hs[i-1], 1, 0)]
Bit(b, p) == (b[p \div 8 + 1] \div Pow(2, p % 8)) % 2
Bits(b) == IF \A p \in 0 .. 63 : Bit(b, p) = 0 THEN 0 ELSE 1 + Max({p \in 0 .. 63 : Bit(b, p) = 1})
PackHigh(ds, w) ==
    LET all == Len(ds) * w
        bit(q) == IF q >= all THEN 0 ELSE Bit(ds[q \div w + 1], w - 1 - (q % w))
    IN [j \in 1 .. (all + 7) \div 8 |-> Sum([t \in 1 .. 8 |-> bit(8 * (j - 1) + t - 1) * Pow(2, 8 - t)])]
Compressible(c) == c.ord /\ c.hs # <<>> /\ ~(Len(c.hs) = 1 /\ ~Est(c))
CountBytes(n) == Min({k \in 1 .. 3 : n < Pow(256, k)})
Theta4(c, img) ==
    LET ds == Deltas(c.hs)
        w == Max({Bits(ds[i]) : i \in DOMAIN ds})
        nb == CountBytes(Len(c.hs))
    IN IF ~Compressible(c) THEN Theta3(c, img)
       ELSE ThetaFlags(c, img[6]) /\
            img = <<IF Est(c) THEN 2 ELSE 1, 4, 3, w, nb, img[6]>> \o c.sh \o
                  (IF Est(c) THEN c.theta ELSE <<>>) \o LE(Len(c.hs), nb) \o PackHigh(ds, w)

(* ---- tuple -------------------------------------------------------------*)
(* c: as theta, with the summaries' bytes sums                             *)
TuplePair(c) == [i \in DOMAIN c.hs |-> c.hs[i] \o c.sums[i]]
TupleHead(c, f, ver, type) == <<ThetaPre(c), ver, 9, type>> \o From(Theta3Head(c, f), 5)
TupleAs(c, img, ver, type) ==
    LET head == TupleHead(c, img[6], ver, type)
    IN ThetaFlags(c, img[6]) /\ Starts(head, img) /\ Entries(c.ord, From(img, Len(head) + 1), TuplePair(c))
(* A summary of strings: its length, their number, each with its length.   *)
Strings(ss) ==
    LET body == Cat([i \in DOMAIN ss |-> LE(Len(ss[i]), 4) \o ss[i]])
    IN LE(5 + Len(body), 4) \o <<Len(ss)>> \o body
(* Arrays of numbers: nv doubles for each key, after all the keys.         *)
Numbers(c, img) ==
    LET head == <<1, 1, 9, 3, If(c.emp, 4) + If(c.hs # <<>>, 8) + If(c.ord, 16), c.nv>> \o c.sh \o c.theta
        n == Len(c.hs)
        b == From(img, Len(head) + 9)
        sz == c.w * c.nv
        pairs == [i \in 1 .. n |-> SubSeq(b, 8 * i - 7, 8 * i) \o SubSeq(b, 8 * n + sz * (i - 1) + 1, 8 * n + sz * i)]
    IN /\ Starts(head, img)
       /\ IF n = 0 THEN Len(img) = Len(head)
          ELSE /\ Starts(head \o LE(n, 4) \o Zeros(4), img)
               /\ Len(b) = (8 + sz) * n
               /\ IF c.ord THEN pairs = TuplePair(c) ELSE RangeOf(pairs) = RangeOf(TuplePair(c))

(* ---- HLL ---------------------------------------------------------------*)
(* c: [lgk, type (0, 1, 2 for 4, 6, 8 bits), cmp, cs (coupons), regs,      *)
(*     hip (bytes of the estimate), ooo]                                   *)
HllMode(c) == IF c.regs # <<>> THEN 2 ELSE IF Len(c.cs) >= 8 THEN 1 ELSE 0
SetSize(n) == Pow(2, Max({5, Min({l \in 0 .. 26 : 4 * n <= 3 * Pow(2, l)})}))
(* cells: 4-byte cells in some order, the rest of them empty               *)
Cells(b, room, items) ==
    LET cell(i) == SubSeq(b, 4 * i - 3, 4 * i)
        used == {i \in 1 .. room : cell(i) # Zeros(4)}
    IN Len(b) = 4 * room /\ Cardinality(used) = Len(items) /\ {cell(i) : i \in used} = RangeOf(items)
Lg(n) == Min({l \in 0 .. 26 : Pow(2, l) >= n})
HllCells(c) == IF HllMode(c) = 0 THEN 3 ELSE Lg(SetSize(Len(c.cs)))
HllHead(c) ==
    LET md == HllMode(c)
        n == Len(c.cs)
    IN <<2 + md, 1, 7, c.lgk, HllCells(c), If(n = 0, 4) + If(c.cmp, 8) + If(c.ooo, 16), If(md = 0, n), md + 4 * c.type>> \o
       (IF md = 1 THEN LE(n, 4) ELSE <<>>)
HllCoupons(c, img) ==
    LET head == HllHead(c)
    IN Starts(head, img) /\ Cells(From(img, Len(head) + 1), IF c.cmp THEN Len(c.cs) ELSE Pow(2, HllCells(c)), c.cs)
RECURSIVE AddUp(_, _)
(* sum of 2^(top - v) over the values v <= top as <<high, low>>, low < 2^20 *)
AddUp(vs, top) ==
    IF vs = <<>> THEN <<0, 0>>
    ELSE LET r == AddUp(Tail(vs), top)
             e == top - Head(vs)
             lo == r[2] + If(e < 20, Pow(2, If(e < 20, e)))
             hi == r[1] + If(e >= 20, Pow(2, If(e >= 20, e - 20)))
         IN <<hi + lo \div 1048576, lo % 1048576>>
Sel(s, lo, hi) == SelectSeq(s, LAMBDA v : lo <= v /\ v <= hi)
CurMin(c) == IF c.type = 0 THEN Min(RangeOf(c.regs)) ELSE 0
Sixes(regs) ==
    LET bit(q) == IF q \div 6 + 1 > Len(regs) THEN 0 ELSE (regs[q \div 6 + 1] \div Pow(2, q % 6)) % 2
    IN [j \in 1 .. (Len(regs) * 3) \div 4 + 1 |-> Sum([t \in 1 .. 8 |-> bit(8 * (j - 1) + t - 1) * Pow(2, t - 1)])]
Nibble(c, i) == IF c.regs[i] - CurMin(c) >= 15 THEN 15 ELSE c.regs[i] - CurMin(c)
Fours(c) == [j \in 1 .. Len(c.regs) \div 2 |-> Nibble(c, 2 * j - 1) + 16 * Nibble(c, 2 * j)]
AuxOf(c) == IF c.type # 0 THEN <<>>
            ELSE LET idx == SelectSeq([i \in DOMAIN c.regs |-> i], LAMBDA i : Nibble(c, i) = 15)
                 IN [j \in DOMAIN idx |-> LE(idx[j] - 1, 3) \o <<4 * c.regs[idx[j]]>>]   \* value << 26 | slot
LgAux(lgk) == IF lgk <= 3 THEN 0 ELSE IF lgk <= 7 THEN 2 ELSE IF lgk <= 9 THEN 3 ELSE 4
(* kxq: <<q0, q1>>, the image's two sums, times 2^31 and 2^63.             *)
HllDense(c, img) ==
    LET mn == CurMin(c)
        aux == AuxOf(c)
        regs == CASE c.type = 0 -> Fours(c) [] c.type = 1 -> Sixes(c.regs) [] OTHER -> c.regs
        lg == img[5]
        tail == From(img, 41 + Len(regs))
    IN /\ Len(img) >= 40 + Len(regs)
       /\ SubSeq(img, 1, 4) = <<10, 1, 7, c.lgk>>
       /\ img[6] = If(c.cmp /\ c.type = 0, 8) + If(c.ooo, 16)   \* compact means nothing to the others
       /\ img[7] = mn /\ img[8] = 2 + 4 * c.type
       /\ c.ooo \/ SubSeq(img, 9, 16) = c.hip
       /\ c.kxq = <<AddUp(Sel(c.regs, 0, 31), 31), AddUp(Sel(c.regs, 32, 63), 63)>>
       /\ SubSeq(img, 33, 36) = LE(Cardinality({i \in DOMAIN c.regs : c.regs[i] = mn}), 4)
       /\ SubSeq(img, 37, 40) = LE(Len(aux), 4)
       /\ SubSeq(img, 41, 40 + Len(regs)) = regs
       /\ IF c.type # 0 THEN tail = <<>> /\ lg = 0
          ELSE IF aux = <<>> /\ lg = 0 THEN tail = Zeros(IF c.cmp THEN 0 ELSE 4 * Pow(2, LgAux(c.lgk)))
          ELSE /\ lg >= LgAux(c.lgk) /\ lg <= c.lgk + 1 /\ 4 * Len(aux) <= 3 * Pow(2, lg)
               /\ Cells(tail, IF c.cmp THEN Len(aux) ELSE Pow(2, lg), aux)
Hll(c, img) == IF HllMode(c) = 2 THEN HllDense(c, img) ELSE HllCoupons(c, img)

(* ---- CPC: the preamble (the rest is entropy coded) ---------------------*)
(* c: [lgk, sh, n, hip (bytes), merged, win (there is a window)]           *)
CpcInt(img, i) == SubSeq(img, 4 * i + 1, 4 * i + 4)
Num(b) == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]
Cpc(c, img) ==
    LET f == img[6]
        hip == (f \div 4) % 2 = 1  sv == (f \div 8) % 2 = 1  w == (f \div 16) % 2 = 1
        both == sv /\ w
        pre == IF c.n = 0 THEN 2 ELSE (IF both THEN 6 ELSE 4) + If(hip, 4)
        lens == IF both THEN (IF hip THEN <<8, 9>> ELSE <<4, 5>>) ELSE <<3>>
    IN /\ Len(img) >= 8 /\ SubSeq(img, 1, 4) = <<pre, 1, 16, c.lgk>> /\ SubSeq(img, 7, 8) = c.sh
       /\ f \in {2, 6, 10, 14, 18, 22, 26, 30} /\ (hip <=> ~c.merged) /\ (c.n = 0 <=> ~sv /\ ~w)
       /\ IF c.n = 0 THEN Len(img) = 8 /\ img[5] = 0
          ELSE /\ Len(img) >= 4 * pre /\ Len(img) = 4 * (pre + Sum([i \in DOMAIN lens |-> Num(CpcInt(img, lens[i]))]))
               /\ CpcInt(img, 2) = LE(c.n, 4)
               /\ hip => SubSeq(img, 25, 32) = c.hip
               /\ w <=> 2 * c.n >= Pow(2, c.lgk)   \* sparse and hybrid sketches are pairs alone

(* ---- KLL ---------------------------------------------------------------*)
(* c: [k, m, n (bytes), one, lv (levels of items' bytes), min, max]        *)
RECURSIVE Third(_, _, _)
Third(k, d, p) == IF d = 0 THEN ((2 * k * Pow(2, p)) \div Pow(3, p) + 1) \div 2 ELSE Third(k, d - 1, p + 1)
LevelCap(k, m, L, h) == Max({m, Third(k, L - h - 1, 0)})
Capacity(k, m, L) == Sum([h \in 1 .. L |-> LevelCap(k, m, L, h - 1)])
Kll(c, img) ==
    LET L == Len(c.lv)
        kept == Sum([i \in 1 .. L |-> Len(c.lv[i])])
        off(i) == Capacity(c.k, c.m, L) - kept + Sum([j \in 1 .. i - 1 |-> Len(c.lv[j])])
        fl == img[4]
        srt == (fl \div 2) % 2
    IN IF c.num = 0 THEN img = <<2, 1, 15, 1 + 2 * srt>> \o LE(c.k, 2) \o <<c.m, 0>>
       ELSE IF c.num = 1 THEN img = <<2, 2, 15, 4 + 2 * srt>> \o LE(c.k, 2) \o <<c.m, 0>> \o c.lv[1][1]
       ELSE /\ img = <<5, 1, 15, 2 * srt>> \o LE(c.k, 2) \o <<c.m, 0>> \o LE(c.num, 8) \o LE(c.mk, 2) \o <<L, 0>> \o
                     Cat([i \in 1 .. L |-> LE(off(i), 4)]) \o c.min \o c.max \o Cat([i \in 1 .. L |-> Cat(c.lv[i])])
            /\ srt = 1 => c.srt

(* ---- t-digest ----------------------------------------------------------*)
(* c: [k, vals (bytes, in order of arrival), up (the same sorted), buf]    *)
Tdigest(c, img) ==
    LET n == Len(c.vals)
        fl == img[6]
        nc == Num(SubSeq(img, 9, 12))
        cent(i) == SubSeq(img, 33 + 16 * (i - 1), 48 + 16 * (i - 1))
    IN IF n = 0 THEN img = <<1, 1, 20>> \o LE(c.k, 2) \o <<1, 0, 0>>
       ELSE IF n = 1 THEN img \in {<<1, 1, 20>> \o LE(c.k, 2) \o <<f, 0, 0>> \o c.vals[1] : f \in {2, 6}}
       ELSE /\ Len(img) >= 32 /\ Starts(<<2, 1, 20>> \o LE(c.k, 2), img) /\ fl \in {0, 4} /\ img[7] = 0 /\ img[8] = 0
            /\ SubSeq(img, 17, 32) = c.up[1] \o c.up[n]
            /\ IF c.buf THEN /\ fl = 0 /\ SubSeq(img, 9, 16) = LE(0, 4) \o LE(n, 4)
                             /\ From(img, 33) = Cat(c.vals)
               ELSE /\ fl = 4 /\ nc <= n /\ SubSeq(img, 13, 16) = Zeros(4) /\ Len(img) = 32 + 16 * nc
                    /\ Sum([i \in 1 .. nc |-> Num(SubSeq(cent(i), 9, 12))]) = n
                    /\ \A i \in 1 .. nc : SubSeq(cent(i), 13, 16) = Zeros(4)
                    /\ nc = n => \A i \in 1 .. n : SubSeq(cent(i), 1, 8) = c.up[i]

(* ---- frequencies -------------------------------------------------------*)
(* c: [lgmax, lgcur, total, off (bytes), keys, cnts (bytes)]               *)
Freq(c, img) ==
    LET n == Len(c.keys)
        emp == c.total = Zeros(8)
        head == <<IF emp THEN 1 ELSE 4, 1, 10, c.lgmax, c.lgcur, If(emp, 5), 0, 0>>
        rest == LE(n, 4) \o Zeros(4) \o c.total \o c.off
        cs == [i \in 1 .. n |-> SubSeq(img, 33 + 8 * (i - 1), 40 + 8 * (i - 1))]
        ks == From(img, 33 + 8 * n)
        \* the keys in the order of their counts
        RECURSIVE match(_, _, _)
        match(i, b, left) ==
            IF i > n THEN b = <<>>
            ELSE \E j \in left : c.cnts[j] = cs[i] /\ Starts(c.keys[j], b) /\ match(i + 1, From(b, Len(c.keys[j]) + 1), left \ {j})
    IN IF emp THEN img = head ELSE Starts(head \o rest, img) /\ Len(img) >= 32 + 8 * n /\ match(1, ks, 1 .. n)

(* ---- count-min ---------------------------------------------------------*)
(* c: [nb, nh, sh, total]: every row holds the total weight                *)
Cms(c, img) ==
    LET head == <<2, 1, 18, If(c.total = 0, 1)>> \o Zeros(4) \o LE(c.nb, 4) \o <<c.nh>> \o c.sh \o <<0>>
        cell(r, b) == Num(SubSeq(img, 25 + 8 * (c.nb * r + b), 28 + 8 * (c.nb * r + b)))
    IN IF c.total = 0 THEN img = head
       ELSE /\ Starts(head \o LE(c.total, 8), img) /\ Len(img) = 24 + 8 * c.nb * c.nh
            /\ \A r \in 0 .. c.nh - 1 : Sum([b \in 1 .. c.nb |-> cell(r, b - 1)]) = c.total

(* ---- Bloom -------------------------------------------------------------*)
(* c: [cap, nh, seed (bytes), ones (set of bit positions)]                 *)
Bloom(c, img) ==
    LET on == RangeOf(c.ones)
        head == <<IF on = {} THEN 3 ELSE 4, 1, 21, If(on = {}, 4)>> \o LE(c.nh, 2) \o Zeros(2) \o c.seed \o LE(c.cap \div 64, 4) \o Zeros(4)
    IN IF on = {} THEN img = head
       ELSE img = head \o LE(Cardinality(on), 8) \o
                  [j \in 1 .. c.cap \div 8 |-> Sum([t \in 1 .. 8 |-> If(8 * (j - 1) + t - 1 \in on, Pow(2, t - 1))])]

(* ---- reservoir ---------------------------------------------------------*)
(* c: [k, rf (0 .. 3), n, items (bytes)]; a union: [mk, g, img of it]      *)
ReservoirAs(c, img, ver, kb) ==
    LET emp == c.n = 0
        head == <<64 * c.rf + (IF emp THEN 1 ELSE 2), ver, 11, If(emp, 4)>> \o kb
    IN IF emp THEN img = head ELSE img = head \o LE(c.n, 8) \o Cat(c.items)
(* In the first version k was a floating point number of 5 + 11 bits.      *)
Encoded(k) == LET p == Max({e \in 0 .. 20 : Pow(2, e) <= k}) IN LE(2048 * p + (2048 * k) \div Pow(2, p) - 2048, 2) \o Zeros(2)
Reservoir(c, img) == ReservoirAs(c, img, 2, LE(c.k, 4))
ReservoirUnionAs(c, img, ver, kb) ==
    /\ Starts(<<1, ver, 12, If(c.g.n = 0, 4)>> \o kb, img)
    /\ IF c.g.n = 0 THEN Len(img) = 8 ELSE Reservoir(c.g, From(img, 9))

(* ---- VarOpt ------------------------------------------------------------*)
(* c: [k, rf, n, hw (weights' bytes), hi (items' bytes), rw (bytes), ri]   *)
VarOpt(c, img) ==
    LET h == Len(c.hi)  r == Len(c.ri)  emp == c.n = 0
        head == <<64 * c.rf + (IF emp THEN 1 ELSE IF r = 0 THEN 3 ELSE 4), 2, 13, If(emp, 4) + If(c.gad, 128)>> \o LE(c.k, 4)
        rest == LE(c.n, 8) \o LE(h, 4) \o LE(r, 4) \o (IF r = 0 THEN <<>> ELSE c.rw)
        b == From(img, Len(head \o rest) + 1)
        marks == IF c.gad THEN (h + 7) \div 8 ELSE 0
        ws == [i \in 1 .. h |-> SubSeq(b, 8 * i - 7, 8 * i)]
        RECURSIVE match(_, _, _)
        match(i, s, left) ==
            IF i > h THEN AnyOrder(s, c.ri, DOMAIN c.ri)
            ELSE \E j \in left : c.hw[j] = ws[i] /\ Starts(c.hi[j], s) /\ match(i + 1, From(s, Len(c.hi[j]) + 1), left \ {j})
    IN IF emp THEN img = head
       ELSE Starts(head \o rest, img) /\ Len(b) >= 8 * h + marks /\ match(1, From(b, 8 * h + marks + 1), 1 .. h)
VarOptUnion(c, img) ==
    /\ Starts(<<IF c.n = 0 THEN 1 ELSE 4, 2, 14, If(c.n = 0, 4)>> \o LE(c.mk, 4), img)
    /\ IF c.n = 0 THEN Len(img) = 8
       ELSE Len(img) > 32 /\ SubSeq(img, 9, 16) = LE(c.n, 8) /\ c.g => VarOpt(c.gc, From(img, 33))

(* ---- all of them -------------------------------------------------------*)
Is(f, c, img) == Len(img) >= 8 /\
  CASE f = "theta1" -> Theta1(c, img) [] f = "theta2" -> Theta2(c, img)
    [] f = "theta3" -> Theta3(c, img) [] f = "theta4" -> Theta4(c, img)
    [] f = "tuple" -> TupleAs(c, img, 3, 1) [] f = "tupleold" -> TupleAs(c, img, c.ver, c.type)
    [] f = "strings" -> TupleAs([c EXCEPT !.sums = [i \in DOMAIN c.sums |-> Strings(c.sums[i])]], img, 3, 1)
    [] f = "numbers" -> Numbers(c, img)
    [] f = "hll" -> Hll(c, img) [] f = "cpc" -> Cpc(c, img) [] f = "kll" -> Kll(c, img)
    [] f = "tdigest" -> Tdigest(c, img) [] f = "freq" -> Freq(c, img) [] f = "cms" -> Cms(c, img)
    [] f = "bloom" -> Bloom(c, img)
    [] f = "reservoir" -> Reservoir(c, img) [] f = "reservoir1" -> ReservoirAs(c, img, 1, Encoded(c.k))
    [] f = "resunion" -> ReservoirUnionAs(c, img, 2, LE(c.mk, 4))
    [] f = "resunion1" -> ReservoirUnionAs(c, img, 1, Encoded(c.mk))
    [] f = "varopt" -> VarOpt(c, img) [] f = "varoptunion" -> VarOptUnion(c, img)
=============================================================================
