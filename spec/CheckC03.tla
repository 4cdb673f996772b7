------------------------------ MODULE CheckC03 ------------------------------
(* Enumerates likelihood configurations; each carries the terms that define  *)
(* residuals, error bars, log-likelihood and information criteria.           *)
EXTENDS Likelihood, Json

CONSTANTS Thorough

VARIABLES cfg

RV(suf, lin, dec, jit, n, ord) ==
  [suf |-> suf, kind |-> "rv", linear |-> lin, decorr |-> dec, jit |-> jit, n |-> n,
   order |-> ord]

\* one instrument with every feature combination
DecSets == {<<>>, <<"air">>, <<"seeing", "air">>, <<"see", "seeing">>, <<"bis_span">>}
Single ==
  {<<RV(suf, lin, dec, jit, n, ord)>> :
     suf \in {"", "_j", "k2"}, lin \in BOOLEAN, dec \in DecSets, jit \in {"pos", "zero"},
     n \in {1, 6}, ord \in {"sorted", "random"}}
\* several instruments; the second and third differ from the first in every feature
Pairs ==
  {<<RV("_j", l1, d1, "pos", 5, "sorted"), RV("_k", l2, d2, j2, 4, "random")>> :
     l1 \in BOOLEAN, l2 \in BOOLEAN, d1 \in {<<>>, <<"air">>},
     d2 \in {<<>>, <<"air">>, <<"seeing", "see">>}, j2 \in {"pos", "zero", "neg"}}
Triples ==
  {<<RV("_hires_rk", FALSE, <<>>, "pos", 3, "random"), RV("_hires_rj", l2, <<"air">>, "pos", 2, "sorted"),
     RV("_apf", l3, <<>>, "zero", 4, "random")>> : l2 \in BOOLEAN, l3 \in BOOLEAN}
\* vectors with missing values; repeated times, uncertainties and velocities
Holes ==
  {<<RV("_j", l, <<"seeing", "air">>, "pos", 6, "random") @@ [miss |-> m],
     RV("_k", FALSE, <<"air">>, "pos", 4, "random") @@ [miss |-> <<>>]>> :
     l \in BOOLEAN, m \in {<<"air">>, <<"seeing">>, <<"air", "seeing">>}}
Dups == {<<RV("_j", FALSE, <<>>, "pos", 6, "sorted") @@ [dup |-> TRUE],
           RV("_k", l, <<"air">>, "pos", 4, "random") @@ [dup |-> TRUE]>> : l \in BOOLEAN}
NoSuffixPair ==
  {<<RV("", l, <<>>, "pos", 4, "random"), RV("_k", FALSE, <<>>, "pos", 3, "sorted")>> : l \in BOOLEAN}

Layouts == Single \cup Pairs \cup Triples \cup NoSuffixPair

\* planets / trends / bases are spread over the layouts so that every value occurs often
Shapes ==
  {[np |-> 1, basis |-> "per tc secosw sesinw logk", trend |-> <<"dvdt", "curv">>, tb |-> "mid", ecc |-> <<"mid">>],
   [np |-> 2, basis |-> "per tp e w k", trend |-> <<>>, tb |-> "zero", ecc |-> <<"zero", "high">>],
   [np |-> 1, basis |-> "logper tc secosw sesinw k", trend |-> <<"dvdt">>, tb |-> "jd", ecc |-> <<"small">>],
   [np |-> 3, basis |-> "per tc e w k", trend |-> <<"curv">>, tb |-> "mid", ecc |-> <<"mid", "zero", "small">>]}

FreeOf(c, mode) ==
  CASE mode = "all" -> SelectSeq(RowKeys(c), LAMBDA k :
           InSeq(k, ParamKeys(c)) /\ ~\E i \in 1..Len(c.insts) :
              c.insts[i].linear /\ k = GammaKey(c.insts[i]))
    [] mode = "some" -> SelectSeq(RowKeys(c), LAMBDA k :
           k \in {"per1", "logper1", "k1", "logk1", "dvdt"} \cup
                 {JitKey(c.insts[i]) : i \in 1..Len(c.insts)})

Mk(sh, ly, dc, mode, cont, wrap) ==
  LET c == [np |-> sh.np, basis |-> sh.basis, trend |-> sh.trend, tb |-> sh.tb, ecc |-> sh.ecc,
            insts |-> ly, decl |-> dc, container |-> cont, wrap |-> wrap]
  IN [np |-> sh.np, basis |-> sh.basis, trend |-> sh.trend, tb |-> sh.tb, ecc |-> sh.ecc,
      insts |-> ly, decl |-> dc, container |-> cont, wrap |-> wrap, free |-> FreeOf(c, mode)]

Quick == {Mk(sh, ly, dc, "all", "array", FALSE) : sh \in Shapes, ly \in Pairs \cup Triples \cup NoSuffixPair, dc \in {"first"}}
         \cup {Mk(sh, ly, dc, "all", ct, FALSE) : sh \in Shapes, ly \in Holes \cup Dups, dc \in {"first", "late"}, ct \in {"array", "pandas"}}
         \cup {Mk(sh, ly, "first", "some", "array", FALSE) : sh \in {s \in Shapes : s.np = 1 /\ s.tb = "mid"}, ly \in Single}
         \cup {Mk(sh, ly, "late", "all", "pandas", FALSE) : sh \in {s \in Shapes : s.np \in {1, 3}}, ly \in {<<RV("_j", l, d, "pos", 5, "random")>> : l \in BOOLEAN, d \in DecSets}}
         \cup {Mk(sh, ly, "late", "some", "list", TRUE) : sh \in Shapes, ly \in Triples \cup NoSuffixPair \cup {<<RV("_j", l, d, "pos", 5, "random")>> : l \in BOOLEAN, d \in DecSets}}
Configs == IF ~Thorough THEN Quick
           ELSE Quick \cup {Mk(sh, ly, dc, m, ct, w) : sh \in Shapes, ly \in Layouts, dc \in {"first", "late"},
                                                  m \in {"all", "some"}, ct \in {"array", "pandas"}, w \in {TRUE}}

Init == cfg \in Configs
Next == UNCHANGED cfg

\* ---- facts about the specification itself, evaluated by TLC in every configuration
Rows == RowKeys(cfg)
RowsDistinct == Cardinality({Rows[i] : i \in 1..Len(Rows)}) = Len(Rows)
TermsClosed ==
  LET data == UNION {{"x:" \o cfg.insts[i].suf, "y:" \o cfg.insts[i].suf, "s:" \o cfg.insts[i].suf} \cup
                     {"v:" \o cfg.insts[i].decorr[j] \o ":" \o cfg.insts[i].suf : j \in 1..Len(cfg.insts[i].decorr)}
                     : i \in 1..Len(cfg.insts)}
      ks == {ParamKeys(cfg)[i] : i \in 1..Len(ParamKeys(cfg))}
  IN VarsOf(LogLike(cfg)) \subseteq (data \cup ks \cup {"tb"})
\* the likelihood of one instrument never mentions another instrument's offset or jitter
Isolation ==
  \A i, j \in 1..Len(cfg.insts) : i # j =>
     {GammaKey(cfg.insts[j]), JitKey(cfg.insts[j])} \cap VarsOf(InstLL(cfg, cfg.insts[i])) = {}
LinearIgnoresGamma ==
  \A i \in 1..Len(cfg.insts) : cfg.insts[i].linear =>
     GammaKey(cfg.insts[i]) \notin VarsOf(InstLL(cfg, cfg.insts[i]))

Emit ==
  PrintT(ToJson([cfg |-> cfg,
     rows |-> Rows, free |-> FreeKeys(cfg), keys |-> ParamKeys(cfg),
     resid |-> MapSeq(cfg.insts, LAMBDA in : Resid(cfg, in)),
     err |-> MapSeq(cfg.insts, LAMBDA in : ErrorBar(in)),
     ll |-> MapSeq(cfg.insts, LAMBDA in : InstLL(cfg, in))]))

ASSUME BasisFacts
=============================================================================
