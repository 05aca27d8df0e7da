-------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Case generation: writes the cases of a specification for the driver.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANT Cases           \* a sequence of records

VARIABLE done
Thorough == IOEnv.VF_TIER = "thorough"
Seed == atoi(IOEnv.VF_SEED)

Init == done = FALSE
Next == ~done /\ ndJsonSerialize(IOEnv.VF_OUT, Cases) /\ done' = TRUE

(* a small pseudo random sequence: the k-th number below n *)
Rnd(k, n) == ((((((k + 31 * Seed) % 9973) * 7919 + 104729) % 99991) * 137 + k) % 65537) % n
(* one of each step successive elements of a sequence; the seed chooses which *)
Every(s, step) == [i \in 1 .. (Len(s) \div step) |-> s[(i - 1) * step + 1 + Rnd(i, step)]]
Pick(s, k) == s[1 + (k % Len(s))]
=============================================================================
