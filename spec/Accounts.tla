------------------------------ MODULE Accounts ------------------------------
(* Which accounts an instruction takes, and that it takes no others.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Menu, Lives, Subs
VARIABLES done, act
vars == <<done, act>>
view == done

(* An instruction of an accepted history: its places, each with its account and a role
   fixed   the account is prescribed: no other is taken
   owner   the account is prescribed, and has to sign
   person  whoever signs
   account an account of the caller's choice, within bounds (of theirs, or of the right kind)
   reference  the log of instructions, or none: no other
   free    not looked at                                                       *)
B(n, places) == [n |-> n, places |-> places]
Table == <<
    B("sol.Store", <<<<"sender", "person">>, <<"sender", "account">>, <<"warden-1", "person">>, <<"warden-1", "free">>, <<"pool", "fixed">>, <<"pool", "fixed">>, <<"collector", "fixed">>, <<"collector", "fixed">>, <<"price0", "free">>, <<"price0", "free">>, <<"governor", "fixed">>, <<"storage", "fixed">>, <<"basehash1", "fixed">>, <<"basebuffer", "fixed">>, <<"system", "fixed">>, <<"system", "fixed">>>>),
    B("spl.Store", <<<<"sender", "person">>, <<"sender/1", "account">>, <<"warden-1", "person">>, <<"warden-1/1", "account">>, <<"pool", "fixed">>, <<"poolvault1", "fixed">>, <<"collector", "fixed">>, <<"collvault1", "fixed">>, <<"price0", "fixed">>, <<"price1", "fixed">>, <<"governor", "fixed">>, <<"storage", "fixed">>, <<"basehash1", "fixed">>, <<"basebuffer", "fixed">>, <<"splprogram", "fixed">>, <<"system", "fixed">>>>),
    B("sol.BaseHash", <<<<"basehash1", "fixed">>>>),
    B("sol.BaseDone", <<<<"warden-1", "fixed">>, <<"pool", "fixed">>, <<"fee0", "fixed">>, <<"basehash1", "fixed">>, <<"queue", "fixed">>, <<"mqueue", "fixed">>>>),
    B("spl.BaseDone", <<<<"warden-1", "fixed">>, <<"pool", "fixed">>, <<"fee0", "fixed">>, <<"basehash1", "fixed">>, <<"queue", "fixed">>, <<"mqueue", "fixed">>>>),
    B("tree.Setup", <<<<"hashing", "fixed">>, <<"storage", "fixed">>, <<"schild0", "free">>, <<"schild1", "free">>, <<"?", "fixed">>, <<"?", "fixed">>, <<"schild12", "fixed">>>>),
    B("tree.Start", <<<<"queue", "fixed">>, <<"mqueue", "fixed">>, <<"hashing", "fixed">>, <<"metadata", "fixed">>, <<"mchild0", "fixed">>, <<"mchild1", "free">>>>),
    B("tree.Hash", <<<<"warden-1", "person">>, <<"fee0", "fixed">>, <<"pool", "fixed">>, <<"hashing", "fixed">>>>),
    B("tree.Done", <<<<"hashing", "fixed">>, <<"storage", "fixed">>, <<"schild0", "fixed">>, <<"schild1", "fixed">>, <<"?", "fixed">>, <<"?", "fixed">>, <<"schild12", "fixed">>>>),
    B("end.Setup", <<<<"hashing", "fixed">>, <<"storage", "fixed">>, <<"schild0", "fixed">>, <<"schild1", "fixed">>, <<"?", "fixed">>, <<"?", "fixed">>, <<"schild12", "free">>, <<"schild24", "fixed">>>>),
    B("end.Done", <<<<"hashing", "fixed">>, <<"storage", "fixed">>, <<"schild0", "fixed">>, <<"schild1", "fixed">>, <<"?", "fixed">>, <<"?", "fixed">>, <<"schild12", "fixed">>, <<"schild24", "fixed">>>>),
    B("end.Reset", <<<<"storage", "fixed">>, <<"schild0", "fixed">>, <<"queue", "fixed">>, <<"null0", "fixed">>>>),
    B("good.SpendInit", <<<<"payer-1", "owner">>, <<"spend-payer-1", "fixed">>, <<"vkey0", "fixed">>, <<"?", "fixed">>, <<"system", "fixed">>, <<"?", "free">>, <<"storage", "fixed">>, <<"buffer", "fixed">>, <<"null2", "fixed">>, <<"nchild2", "fixed">>, <<"null1", "fixed">>, <<"nchild1", "free">>>>),
    B("good.SpendFee", <<<<"payer-1", "owner">>, <<"payer-1", "free">>, <<"pool", "fixed">>, <<"pool", "fixed">>, <<"collector", "fixed">>, <<"collector", "fixed">>, <<"price0", "free">>, <<"price0", "free">>, <<"governor", "fixed">>, <<"spend-payer-1", "fixed">>, <<"system", "free">>, <<"system", "fixed">>>>),
    B("good.SpendProof", <<<<"payer-1", "owner">>, <<"spend-payer-1", "fixed">>>>),
    B("good.Compute", <<<<"payer-1", "fixed">>, <<"spend-payer-1", "fixed">>, <<"vkey0", "fixed">>, <<"vkey-data", "fixed">>, <<"log", "fixed">>>>),
    B("good.Send", <<<<"recipient", "fixed">>, <<"?", "fixed">>, <<"log", "reference">>, <<"payer-1", "fixed">>, <<"queue", "fixed">>, <<"spend-payer-1", "fixed">>, <<"storage", "fixed">>, <<"buffer", "fixed">>, <<"log", "fixed">>>>),
    B("good.Insert", <<<<"payer-1", "fixed">>, <<"spend-payer-1", "fixed">>, <<"null2", "fixed">>, <<"nchild2", "fixed">>>>),
    B("good.Lamports", <<<<"payer-1", "owner">>, <<"recipient", "fixed">>, <<"pool", "fixed">>, <<"collector", "fixed">>, <<"?", "free">>, <<"queue", "fixed">>, <<"mqueue", "fixed">>, <<"spend-payer-1", "fixed">>, <<"?", "fixed">>, <<"system", "fixed">>, <<"log", "fixed">>>>),
    B("opt.Lamports", <<<<"payer-1", "owner">>, <<"recipient", "fixed">>, <<"pool", "fixed">>, <<"collector", "fixed">>, <<"optional-collector", "fixed">>, <<"queue", "fixed">>, <<"mqueue", "fixed">>, <<"spend-payer-1", "fixed">>, <<"?", "fixed">>, <<"system", "fixed">>, <<"log", "fixed">>>>),
    B("closed.SpendInit", <<<<"payer-1", "owner">>, <<"spend-payer-1", "fixed">>, <<"vkey0", "fixed">>, <<"?", "fixed">>, <<"system", "fixed">>, <<"?", "free">>, <<"storage", "fixed">>, <<"buffer", "fixed">>, <<"null1", "fixed">>, <<"nchild1", "fixed">>, <<"null0", "fixed">>, <<"nchild0", "free">>>>),
    B("closed.Insert", <<<<"payer-1", "fixed">>, <<"spend-payer-1", "fixed">>, <<"null1", "fixed">>, <<"nchild1", "fixed">>>>),
    B("token.SpendFee", <<<<"payer-1", "owner">>, <<"payer-1/1", "account">>, <<"pool", "fixed">>, <<"poolvault1", "fixed">>, <<"collector", "fixed">>, <<"collvault1", "fixed">>, <<"price0", "fixed">>, <<"price1", "fixed">>, <<"governor", "fixed">>, <<"spend-payer-1", "fixed">>, <<"splprogram", "fixed">>, <<"system", "fixed">>>>),
    B("token.Send", <<<<"recipient-token-account", "fixed">>, <<"?", "fixed">>, <<"log", "reference">>, <<"payer-1", "fixed">>, <<"queue", "fixed">>, <<"spend-payer-1", "fixed">>, <<"storage", "fixed">>, <<"buffer", "fixed">>, <<"log", "fixed">>>>),
    B("token.Token", <<<<"payer-1", "owner">>, <<"payer-1/1", "fixed">>, <<"recipient-token-account", "fixed">>, <<"recipient", "free">>, <<"pool", "fixed">>, <<"poolvault1", "fixed">>, <<"collector", "fixed">>, <<"collvault1", "fixed">>, <<"?", "free">>, <<"queue", "fixed">>, <<"mqueue", "fixed">>, <<"spend-payer-1", "fixed">>, <<"?", "fixed">>, <<"ataprogram", "fixed">>, <<"splprogram", "fixed">>, <<"system", "fixed">>, <<"mint1", "free">>, <<"log", "fixed">>>>),
    B("topt.Token", <<<<"payer-1", "owner">>, <<"payer-1/1", "fixed">>, <<"recipient-token-account", "fixed">>, <<"recipient", "free">>, <<"pool", "fixed">>, <<"poolvault1", "fixed">>, <<"collector", "fixed">>, <<"collvault1", "fixed">>, <<"optional-collector-token-account", "fixed">>, <<"queue", "fixed">>, <<"mqueue", "fixed">>, <<"spend-payer-1", "fixed">>, <<"?", "fixed">>, <<"ataprogram", "fixed">>, <<"splprogram", "fixed">>, <<"system", "fixed">>, <<"mint1", "free">>, <<"log", "fixed">>>>),
    B("ata.Send", <<<<"recipient", "fixed">>, <<"?", "fixed">>, <<"log", "reference">>, <<"payer-1", "fixed">>, <<"queue", "fixed">>, <<"spend-payer-1", "fixed">>, <<"storage", "fixed">>, <<"buffer", "fixed">>, <<"log", "fixed">>>>),
    B("ata.Token", <<<<"payer-1", "owner">>, <<"payer-1/1", "fixed">>, <<"recipient/1", "fixed">>, <<"recipient", "fixed">>, <<"pool", "fixed">>, <<"poolvault1", "fixed">>, <<"collector", "fixed">>, <<"collvault1", "fixed">>, <<"?", "free">>, <<"queue", "fixed">>, <<"mqueue", "fixed">>, <<"spend-payer-1", "fixed">>, <<"?", "fixed">>, <<"ataprogram", "fixed">>, <<"splprogram", "fixed">>, <<"system", "fixed">>, <<"mint1", "fixed">>, <<"log", "fixed">>>>),
    B("skip.SpendInit", <<<<"payer-2", "owner">>, <<"spend-payer-2", "fixed">>, <<"vkey0", "fixed">>, <<"?", "fixed">>, <<"system", "fixed">>, <<"?", "free">>, <<"storage", "fixed">>, <<"buffer", "fixed">>, <<"null2", "fixed">>, <<"nchild2", "fixed">>, <<"null1", "fixed">>, <<"nchild1", "free">>>>),
    B("skip.Lamports", <<<<"payer-1", "owner">>, <<"recipient", "fixed">>, <<"pool", "fixed">>, <<"collector", "fixed">>, <<"?", "free">>, <<"queue", "fixed">>, <<"mqueue", "fixed">>, <<"spend-payer-1", "fixed">>, <<"?", "fixed">>, <<"system", "fixed">>, <<"log", "fixed">>>>),
    B("bad.Lamports", <<<<"payer-1", "owner">>, <<"recipient", "free">>, <<"pool", "fixed">>, <<"collector", "fixed">>, <<"?", "free">>, <<"queue", "fixed">>, <<"mqueue", "fixed">>, <<"spend-payer-1", "fixed">>, <<"?", "fixed">>, <<"system", "fixed">>, <<"log", "fixed">>>>),
    B("bad.Send", <<<<"recipient", "fixed">>, <<"?", "fixed">>, <<"log", "reference">>, <<"payer-1", "fixed">>, <<"queue", "fixed">>, <<"spend-payer-1", "fixed">>, <<"storage", "fixed">>, <<"buffer", "fixed">>, <<"log", "fixed">>>>),
    B("badtoken.Send", <<<<"recipient-token-account", "fixed">>, <<"?", "fixed">>, <<"log", "reference">>, <<"payer-1", "fixed">>, <<"queue", "fixed">>, <<"spend-payer-1", "fixed">>, <<"storage", "fixed">>, <<"buffer", "fixed">>, <<"log", "fixed">>>>),
    B("badtoken.Token", <<<<"payer-1", "owner">>, <<"payer-1/1", "fixed">>, <<"recipient-token-account", "free">>, <<"recipient", "free">>, <<"pool", "fixed">>, <<"poolvault1", "fixed">>, <<"collector", "fixed">>, <<"collvault1", "fixed">>, <<"?", "free">>, <<"queue", "fixed">>, <<"mqueue", "fixed">>, <<"spend-payer-1", "fixed">>, <<"?", "fixed">>, <<"ataprogram", "fixed">>, <<"splprogram", "fixed">>, <<"system", "fixed">>, <<"mint1", "free">>, <<"log", "fixed">>>>),
    B("key.VkeyCreate", <<<<"vkey-person-1", "person">>, <<"vkey0", "fixed">>, <<"system", "fixed">>>>),
    B("key.VkeyNew", <<<<"vkey-person-1", "owner">>, <<"vkey0", "fixed">>, <<"vkey-data-1", "account">>>>),
    B("key.VkeyUpdate", <<<<"vkey-person-1", "owner">>, <<"vkey0", "fixed">>, <<"vkey-data-2", "free">>, <<"system", "fixed">>>>),
    B("key.VkeySet", <<<<"vkey-person-1", "owner">>, <<"vkey0", "fixed">>, <<"vkey-data-1", "free">>, <<"vkey-data-2", "fixed">>>>),
    B("key.VkeyAuthority", <<<<"vkey-person-1", "owner">>, <<"vkey0", "fixed">>>>),
    B("key.VkeyFreeze", <<<<"vkey-person-1", "owner">>, <<"vkey0", "fixed">>>>),
    B("key2.VkeyUpdate", <<<<"vkey-person-1", "owner">>, <<"vkey0", "fixed">>, <<"vkey-data-1", "fixed">>, <<"system", "fixed">>>>),
    B("open.OpenSingle", <<<<"admin", "person">>, <<"pool", "fixed">>, <<"collector", "fixed">>, <<"hashing", "fixed">>, <<"queue", "fixed">>, <<"storage", "fixed">>, <<"basebuffer", "fixed">>, <<"system", "fixed">>>>),
    B("open.Governor", <<<<"admin", "person">>, <<"governor", "fixed">>, <<"system", "fixed">>>>),
    B("open.Fee", <<<<"admin", "person">>, <<"governor", "fixed">>, <<"fee0", "fixed">>, <<"system", "fixed">>>>),
    B("open.OpenNull", <<<<"admin", "person">>, <<"null1", "fixed">>, <<"system", "fixed">>>>),
    B("open.Later", <<<<"admin", "person">>, <<"buffer", "fixed">>, <<"mqueue", "fixed">>, <<"metadata", "fixed">>, <<"storage", "fixed">>, <<"hashing", "fixed">>, <<"queue", "fixed">>, <<"system", "fixed">>>>),
    B("open.BindStorage", <<<<"storage", "fixed">>, <<"setup-child-s1", "account">>>>),
    B("open.BindMeta", <<<<"metadata", "fixed">>, <<"setup-child-m1", "account">>>>),
    B("open.BindNull", <<<<"null0", "fixed">>, <<"setup-child-n1", "account">>>>) >>
-----------------------------------------------------------------------------
Chosen == {i \in DOMAIN Table : Lives = {} \/ Table[i].n \in Lives}
Who(b, p) == b.places[p][1]
Role(b, p) == b.places[p][2]
Prescribed(r) == r \in {"fixed", "owner", "reference"}
Signs(r) == r \in {"owner", "person"}

Do(a, ok) == act' = a @@ [ok |-> ok] /\ UNCHANGED done
Good(b) == Do([n |-> "Good", v |-> b.n, b |-> b.n, names |-> [p \in DOMAIN b.places |-> Who(b, p)]], TRUE)
\* another account: a look-alike with the same bytes (of the same owner: "copy", of another program: "fake"), nothing at all, a
\* rich stranger, one of the other accounts of the program or of a person
Forge(b, p, s) == Do([n |-> "Forge", v |-> b.n \o ":" \o ToString(p), b |-> b.n, p |-> p, s |-> s, who |-> Who(b, p)], FALSE)
Unsigned(b, p) == Do([n |-> "Unsigned", v |-> b.n \o ":" \o ToString(p), b |-> b.n, p |-> p, who |-> Who(b, p)], FALSE)
Swap(b, p, q) == Do([n |-> "Swap", v |-> b.n \o ":" \o ToString(p), b |-> b.n, p |-> p, q |-> q, who |-> Who(b, p) \o "/" \o Who(b, q)], FALSE)
\* the accounts from place p on are missing
Short(b, p) == Do([n |-> "Short", v |-> b.n \o ":" \o ToString(p), b |-> b.n, p |-> p, who |-> Who(b, p)], FALSE)

Init == done = 0 /\ act = [n |-> "Start", ok |-> TRUE]
Next == \E i \in Chosen : LET b == Table[i] IN
    \/ "good" \in Menu /\ Good(b)
    \/ "forge" \in Menu /\ \E p \in DOMAIN b.places, s \in Subs \cup {"copy", "fake", "empty", "wealthy"} :
          /\ Prescribed(Role(b, p))
          /\ ~(Role(b, p) = "reference" /\ s = "system")
          /\ s # Who(b, p) /\ Forge(b, p, s)
    \/ "unsigned" \in Menu /\ \E p \in DOMAIN b.places : Signs(Role(b, p)) /\ Unsigned(b, p)
    \/ "swap" \in Menu /\ \E p, q \in DOMAIN b.places :
          p < q /\ Prescribed(Role(b, p)) /\ Prescribed(Role(b, q)) /\ Who(b, p) # Who(b, q) /\ Swap(b, p, q)
    \/ "short" \in Menu /\ \E p \in DOMAIN b.places : Prescribed(Role(b, p)) /\ Short(b, p)
Spec == Init /\ [][Next]_vars
NeverForged == [][ act'.ok => act'.n = "Good" ]_vars
Dump == PrintT("@E " \o ToJson([f |-> [done |-> done], a |-> act', t |-> [done |-> done']]))
=============================================================================
