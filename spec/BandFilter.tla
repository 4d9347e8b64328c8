----------------------------- MODULE BandFilter -----------------------------
(* Brick-wall filtering.  `kept` is the set of DFT bins (0..N-1) that survive.  *)
(* Filter(list of bands) keeps exactly the bins whose distance to DC lies in     *)
(* some band; band edges are in 1/res bins and snap to the nearest bin (edges    *)
(* half-way between bins are excluded).  A behaviour is a chain of filters.      *)
EXTENDS Common
CONSTANTS Mode, MaxN, Depth
VARIABLES cfg, kept, hist
vars == <<cfg, kept, hist>>
Half(N) == N \div 2
\* every single band and every pair of bands whose edges are whole bins
Grid == {[N |-> n, res |-> 1, todo |-> <<>>] : n \in 1..MaxN}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
Snap(e) == (2 * e + cfg.res) \div (2 * cfg.res)
Legal(bands) == \A i \in DOMAIN bands : \A j \in {1, 2} :
   /\ 0 <= bands[i][j] /\ 2 * bands[i][j] <= cfg.N * cfg.res
   /\ (2 * bands[i][j]) % (2 * cfg.res) = cfg.res        \* a tie: only Nyquist itself as upper edge
        => 2 * bands[i][j] = cfg.N * cfg.res /\ bands[i][3 - j] < bands[i][j] /\ bands[i][3 - j] % cfg.res = 0
DistDc(k) == Min2(k, cfg.N - k)
InBand(k, b) == LET lo == Min2(b[1], b[2])  hi == Max2(b[1], b[2]) IN Snap(lo) <= DistDc(k) /\ DistDc(k) <= Snap(hi)
Pass(bands) == {k \in 0..(cfg.N - 1) : \E i \in DOMAIN bands : InBand(k, bands[i])}
Init == cfg \in InitSet /\ kept = 0..(cfg.N - 1) /\ hist = <<>>
Filter(bands) == /\ Legal(bands) /\ kept' = kept \intersect Pass(bands)
                 /\ hist' = Append(hist, bands) /\ UNCHANGED cfg
Singles == {<< <<a, b>> >> : a \in 0..Half(cfg.N), b \in 0..Half(cfg.N)}
Pairs == {<< <<a, b>>, <<u, v>> >> : a \in 0..Half(cfg.N), b \in 0..Half(cfg.N), u \in 0..Half(cfg.N), v \in {Half(cfg.N)}}
Next == IF Mode = "file" THEN Len(hist) < Len(cfg.todo) /\ Filter(cfg.todo[Len(hist) + 1])
        ELSE Len(hist) < Depth /\ \E s \in Singles \union Pairs : Filter(s)
Spec == Init /\ [][Next]_vars

Symmetric == \A k \in kept : (cfg.N - k) % cfg.N \in kept           \* the output stays real
Idempotent == (hist # <<>>) => kept \intersect Pass(hist[Len(hist)]) = kept
Commutes == (Len(hist) = 2) => Pass(hist[1]) \intersect Pass(hist[2]) = kept
FullBand == Pass(<< <<0, Half(cfg.N) * cfg.res>> >>) = 0..(cfg.N - 1)
\* Bands that tile the spectrum split it: every bin in exactly one part.
Tiles == Mode # "file" => \A m \in 0..(Half(cfg.N) - 1) :
   LET p == Pass(<< <<0, m>> >>)  q == Pass(<< <<m + 1, Half(cfg.N)>> >>)
   IN p \intersect q = {} /\ p \union q = 0..(cfg.N - 1)
EmitAll == (hist # <<>> /\ (Mode = "file" => Len(hist) = Len(cfg.todo))) =>
   Emit([N |-> cfg.N, res |-> cfg.res, hist |-> hist, kept |-> kept])
=============================================================================
