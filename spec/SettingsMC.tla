----------------------------- MODULE SettingsMC -----------------------------
(***************************************************************************)
(* All configurations of up to MaxSecs sections from a set of sections.    *)
(* Prints for each what loading it must give.                              *)
(***************************************************************************)
EXTENDS Settings, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.LOG)
Secs == In.sections
MaxSecs == In.maxsecs
Names == In.names

VARIABLES hist, conf
vars == <<hist, conf>>

Init == hist = << >> /\ conf = Blank
Next == \E i \in DOMAIN Secs :
    /\ Len(hist) < MaxSecs
    /\ hist' = Append(hist, i)
    /\ conf' = ReadSection(conf, Secs[i])
Spec == Init /\ [][Next]_vars

Cfg == [i \in DOMAIN hist |-> Secs[hist[i]]]
Done == Finish(conf)

\* the machine refuses exactly the unusable configurations
RefusesExactly == (Done.why # "") <=> Unusable(Cfg)
\* a fault stays a fault, whatever comes after it
FaultsStay == [][conf.why # "" => conf'.why # ""]_vars
\* reading a setting gives a value of this section or of the default section
NoLeak == Done.why = "" => \A i \in DOMAIN Done.sess : \A j \in DOMAIN Names :
    LET k == Names[j]
        e == Effective(Done.sess[i], Done.dflt[1], k) IN
    /\ Has(Done.sess[i], k) => e = <<Val(Done.sess[i], k)>>
    /\ ~Has(Done.sess[i], k) => e = Own(Done.dflt[1], k)

Emit == DistinctIdents(Done) =>
    PrintT(<<"E", ToJson([s |-> hist, why |-> Done.why,
        sess |-> IF Done.why # "" THEN << >> ELSE [i \in DOMAIN Done.sess |->
            [id |-> SessionIdent(Done.sess[i], Done.dflt[1]),
             own |-> [j \in DOMAIN Names |-> Own(Done.sess[i], Names[j])],
             eff |-> [j \in DOMAIN Names |-> Effective(Done.sess[i], Done.dflt[1], Names[j])]]],
        dflt |-> IF Done.why # "" THEN << >> ELSE [j \in DOMAIN Names |-> Own(Done.dflt[1], Names[j])]])>>)
=============================================================================
