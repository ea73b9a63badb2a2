------------------------------ MODULE Validate ------------------------------
(***************************************************************************)
(* Which messages are acceptable by themselves.  Broken(m) is the set of    *)
(* rules a message breaks, each given as the set of error names that report *)
(* it; the message is acceptable iff that set is empty.                     *)
(***************************************************************************)
EXTENDS Text, Versions

Rule(c, names) == IF c THEN {names} ELSE {}
RECURSIVE UnionOver(_, _)
UnionOver(Op(_), s) == IF s = <<>> THEN {} ELSE Op(Head(s)) \cup UnionOver(Op, Tail(s))

On(m, f) == Enabled(f, m.v)

(* sizes *)
MaxData(m) ==
  IF ~On(m, "MessageLengthCheckFix") THEN 2048
  ELSE IF m.type = 14 THEN 65536
  ELSE IF m.pro /\ m.type = 1 THEN 16384
  ELSE IF m.type = 12 /\ On(m, "IncreaseUsernameProofSizeLimit") THEN 16384
  ELSE 2048

(* identifiers *)
FidB(f) == Rule(f = "0", {"FidIsMissing"})
CastIdB(c) == FidB(c.fid) \cup Rule(c.hl # 20, {"HashIsMissing"})
UrlB(l) == Rule(l = 0, {"UrlTooShort"}) \cup Rule(l > 256, {"UrlTooLong"})
RefB(r) == CASE r.k = "url" -> UrlB(r.len) [] r.k = "cast" -> CastIdB(r) [] r.k = "none" -> {}

(* casts *)
CastB(m, b) ==
  LET maxEmb == IF m.pro \/ On(m, "IncreaseEmbedLimitForAllUsers") THEN 4 ELSE 2
      old == m.old
      Emb(e) == IF e.k = "none" THEN {{"MissingEmbed"}} ELSE RefB(e)
  IN Rule(b.ct \notin {0, 1, 2}, {"InvalidCastType"}) \cup
     Rule(b.ct = 0 /\ b.tl > 320, {"TextTooLong"}) \cup
     Rule(b.ct = 1 /\ b.tl > 1024, {"TextTooLongForLongCast"}) \cup
     Rule(b.ct = 1 /\ b.tl <= 320, {"TextTooShortForLongCast"}) \cup
     Rule(b.ct = 2 /\ ~m.pro, {"ProUserFeature"}) \cup
     Rule(b.ct = 2 /\ (b.tl > 10000 \/ b.tl <= 1024), {"TextTooShortFor10kCast", "TextTooLongFor10kCast"}) \cup
     Rule(Len(b.emb) > maxEmb, {"EmbedsExceedsLimit"}) \cup
     Rule(old /\ Len(b.dep) > 2, {"StringEmbedsExceedsLimit"}) \cup
     Rule(~old /\ b.dep # <<>>, {"StringEmbedsDeprecated"}) \cup
     Rule(Len(b.ment) > 10, {"MentionsExceedsLimit"}) \cup
     Rule(Len(b.ment) # Len(b.pos), {"MentionsMismatch"}) \cup
     Rule(b.emb # <<>> /\ b.dep # <<>>, {"InvalidEmbedsAndStringEmbeds"}) \cup
     Rule(b.tl = 0 /\ b.emb = <<>> /\ b.dep = <<>> /\ b.ment = <<>>, {"CastIsEmpty"}) \cup
     UnionOver(Emb, b.emb) \cup UnionOver(UrlB, b.dep) \cup UnionOver(FidB, b.ment) \cup
     Rule(\E i \in 1..Len(b.pos) : b.pos[i] > b.tl, {"MentionsPositionsInvalid"}) \cup
     Rule(\E i \in 1..(Len(b.pos) - 1) : b.pos[i + 1] < b.pos[i], {"MentionsPositionsNotSorted"}) \cup
     RefB(b.par)

(* links *)
LinkTypeB(l) == Rule(l = 0 \/ l > 8, {"InvalidLinkType"})
LinkB(b) == LinkTypeB(b.tlen) \cup (IF b.tgt = "none" THEN {{"TargetIsMissing"}} ELSE FidB(b.tgt))
CompactB(b) == LinkTypeB(b.tlen) \cup Rule(b.tgts = <<>>, {"TargetIsMissing"}) \cup UnionOver(FidB, b.tgts)
ReactionB(b) ==
  Rule(b.rt \notin {0, 1, 2}, {"InvalidReactionType"}) \cup
  (IF b.tgt.k = "none" THEN {{"TargetIsMissing"}} ELSE RefB(b.tgt))

(* names: letters a-z, digits and dashes, not starting with a dash, at most 16 *)
NameOk(s) == Len(s) \in 1..16 /\ s[1] \in (Lower \cup Digit) /\ AllIn(s, Lower \cup Digit \cup {Dash})
DotEth == <<46, 101, 116, 104>>
DotBaseEth == <<46, 98, 97, 115, 101, 46, 101, 116, 104>>
EnsOk(s) == EndsWith(s, DotEth) /\ Len(s) <= 20 /\ NameOk(SubSeq(s, 1, Len(s) - 4))
BaseOk(s) == EndsWith(s, DotBaseEth) /\ Len(s) <= 25 /\ NameOk(SubSeq(s, 1, Len(s) - 9))
NameErrors == {"EnsNameDoesntEndWith", "EnsNameUnsupportedSubdomain", "EnsNameNotValid", "EnsNameExceedsLength",
               "EnsNameDoesntMatch", "FnameIsMissing", "FnameExceedsLength", "FnameDoesntMatch", "InvalidData"}
UsernameOk(s) == \/ s = <<>>
                 \/ IF EndsWith(s, DotBaseEth) THEN BaseOk(s) ELSE IF EndsWith(s, DotEth) THEN EnsOk(s) ELSE NameOk(s)
UserErrors == {"UsernameExceedsLength", "UsernameDoesntMatch"}
TwitterOk(s) == Len(s) <= 15 /\ AllIn(s, Lower \cup Digit \cup {95})
\* U+0660..U+0669 (two bytes each) read as the digit 0
RECURSIVE WithAsciiDigits(_)
WithAsciiDigits(s) == IF Len(s) < 2 THEN s
  ELSE IF s[1] = 217 /\ s[2] \in 160..169 THEN <<48>> \o WithAsciiDigits(SubSeq(s, 3, Len(s)))
  ELSE <<s[1]>> \o WithAsciiDigits(SubSeq(s, 2, Len(s)))
GithubOk(s) ==
  /\ Len(s) \in 1..38 /\ s[1] \in Alnum /\ AllIn(s, Alnum \cup {Dash})
  /\ \A i \in 1..(Len(s) - 1) : ~(s[i] = Dash /\ s[i + 1] = Dash)

(* geo:LAT,LON with two decimals each *)
Minus == 45
Coord(s, maxint, limit) ==  \* s = optional sign, 1..maxint digits, dot, two digits; |value| <= limit
  LET u == IF s # <<>> /\ s[1] = Minus THEN Tail(s) ELSE s
      p == Split(u, Dot)
  IN /\ Len(p) = 2 /\ Len(p[1]) \in 1..maxint /\ Len(p[2]) = 2 /\ AllIn(p[1], Digit) /\ AllIn(p[2], Digit)
     /\ Number(p[1]) * 100 + Number(p[2]) <= limit * 100
LocationOk(s) ==
  \/ s = <<>>
  \/ /\ StartsWith(s, <<103, 101, 111, 58>>)
     /\ LET c == Split(SubSeq(s, 5, Len(s)), Comma) IN Len(c) = 2 /\ Coord(c[1], 2, 90) /\ Coord(c[2], 3, 180)
LocationErrors == {"InvalidLocationString", "LatitudeOutOfRange", "LongitudeOutOfRange"}

(* CAIP-19 asset names: chain namespace ":" chain id "/" asset namespace ":" reference ["/" token] *)
Caip19Ok(s) ==
  \/ s = <<>>
  \/ /\ Len(s) <= 256
     /\ LET p == Split(s, Slash) IN
        /\ Len(p) \in {2, 3}
        /\ LET c == Split(p[1], Colon)
               a == Split(p[2], Colon)
           IN /\ Len(c) = 2 /\ c[1] # <<>> /\ c[2] # <<>> /\ AllIn(c[1], Lower \cup Digit) /\ AllIn(c[2], Alnum)
              /\ Len(a) = 2 /\ Len(a[1]) \in 3..8 /\ AllIn(a[1], Lower \cup Digit \cup {Dash})
              /\ Len(a[2]) \in 1..128 /\ AllIn(a[2], Alnum \cup {Dash, Dot, 37})
        /\ (Len(p) = 3 => p[3] # <<>> /\ AllIn(p[3], Alnum))
CaipErrors == {"Caip19TooLong", "InvalidData"}

(* 0x and 40 hex digits in checksum spelling; `sum` says whether the spelling is the checksum one *)
Hex == Digit \cup (65..70) \cup (97..102)
EthTextOk(b) == b.val = <<>> \/ (Len(b.val) = 42 /\ StartsWith(b.val, <<48, 120>>) /\ AllIn(SubSeq(b.val, 3, 42), Hex) /\ b.sum)

UserDataB(m, b) ==
  CASE b.ty = 1  -> Rule(b.len > 256, {"PfpValueTooLong"})
    [] b.ty = 2  -> Rule(b.len > 32, {"DisplayValueTooLong"})
    [] b.ty = 3  -> Rule(b.len > 256, {"BioValueTooLong"})
    [] b.ty = 5  -> Rule(b.len > 256, {"UrlValueTooLong"})
    [] b.ty = 6  -> Rule(~UsernameOk(b.val), NameErrors)
    [] b.ty = 7  -> Rule(~LocationOk(b.val), LocationErrors)
    [] b.ty = 8  -> Rule(~TwitterOk(b.val), UserErrors)
    [] b.ty = 9  -> Rule(~GithubOk(b.val), UserErrors)
    [] b.ty = 10 -> Rule(~m.pro, {"ProUserFeature"}) \cup Rule(b.len > 256, {"BannerValueTooLong"})
    [] b.ty = 11 -> Rule(~On(m, "PrimaryAddresses"), {"UnsupportedFeature"}) \cup
                    Rule(~EthTextOk(b), {"InvalidEthAddressLength", "InvalidData", "EthAddressMissing"})
    [] b.ty = 12 -> Rule(~On(m, "PrimaryAddresses"), {"UnsupportedFeature"}) \cup
                    Rule(b.len # 0 /\ b.b58 # 32, {"InvalidData", "InvalidSolAddressLength", "SolAddressMissing"})
    [] b.ty = 13 -> Rule(~On(m, "UserProfileToken"), {"UnsupportedFeature"}) \cup Rule(~Caip19Ok(b.val), CaipErrors)
    [] b.ty = 14 -> Rule(~On(m, "LiveAt"), {"UnsupportedFeature"}) \cup Rule(b.len > 256, {"UrlValueTooLong"})
    [] b.ty = 0  -> {{"InvalidUserDataType"}}
    [] OTHER     -> {{"InvalidData"}}

ProofB(m, b) ==
  CASE b.ty = 2 -> IF On(m, "EnsValidation") THEN Rule(~(b.utf8 /\ EnsOk(b.name)), NameErrors) ELSE {}
    [] b.ty = 3 -> IF On(m, "Basenames") THEN Rule(~(b.utf8 /\ BaseOk(b.name)), NameErrors) ELSE {{"UnsupportedFeature"}}
    [] OTHER    -> {{"InvalidUsernameType"}}

FrameB(b) ==
  LET L(n, max) == Rule(n > max, {"StringTooLong"}) IN
  Rule(b.btn > 5, {"InvalidButtonIndex"}) \cup Rule(b.url = 0, {"MissingString"}) \cup
  L(b.url, 1024) \cup L(b.input, 256) \cup L(b.state, 4096) \cup L(b.tx, 256) \cup L(b.addr, 64) \cup RefB(b.cast)

LendB(m, b) ==
  Rule(m.ahead < -600, {"TimestampTooFarInThePast"}) \cup
  Rule(b.ut \notin {0, 1, 2}, {"InvalidStorageUnitType"}) \cup Rule(b.n > 5000, {"ExceededMaxStorageUnits"})

(* keys *)
Scopes == {1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15}
KeyAddB(b) ==
  Rule(b.kl # 32, {"InvalidKeyLength"}) \cup Rule(b.kt # 1, {"InvalidKeyType"}) \cup
  Rule(b.deadline0, {"MissingDeadline"}) \cup Rule(b.ttl = 0 \/ b.ttl > 90 * 86400, {"InvalidTtl"}) \cup
  Rule(b.mt # 1, {"InvalidMetadataType"}) \cup Rule(b.ml = 0, {"MissingMetadata"}) \cup
  Rule(b.scopes = <<>>, {"EmptyScopes"}) \cup Rule(Len(b.scopes) > 16, {"TooManyScopes"}) \cup
  Rule(\E i \in 1..Len(b.scopes) : b.scopes[i] \notin Scopes, {"InvalidScope"})
KeyRemB(b) ==
  Rule(b.kl # 32, {"InvalidKeyLength"}) \cup Rule(b.st \notin {1, 2}, {"InvalidSignatureType"}) \cup
  Rule(b.deadline0, {"MissingDeadline"})

(* address verifications; claim = "exact" iff the signature is by the address over exactly
   this account, network, address, protocol and block hash *)
EvmChains == {"0", "1", "5", "10", "420"}
VerifAddB(b) ==
  CASE b.proto = 0 ->
       Rule(b.al = 0, {"EthAddressMissing"}) \cup Rule(b.al # 0 /\ b.al # 20, {"InvalidEthAddressLength"}) \cup
       Rule(b.bl = 0, {"BlockHashMissing"}) \cup Rule(b.bl # 0 /\ b.bl # 32, {"InvalidBlockhashLength"}) \cup
       Rule(b.sl > 2048, {"InvalidEthClaimSignatureLength"}) \cup
       Rule(b.chain \notin EvmChains, {"InvalidData"}) \cup
       Rule(b.vt \notin {0, 1}, {"InvalidData"}) \cup
       Rule(b.vt = 0 /\ b.claim # "exact", {"InvalidClaimSignature"})
    [] b.proto = 1 ->
       Rule(b.al = 0, {"SolAddressMissing"}) \cup Rule(b.al # 0 /\ b.al # 32, {"InvalidSolAddressLength"}) \cup
       Rule(b.bl = 0, {"BlockHashMissing"}) \cup Rule(b.bl # 0 /\ b.bl # 32, {"InvalidBlockhashLength"}) \cup
       Rule(b.sl # 64, {"InvalidSolClaimSignatureLength"}) \cup
       Rule(b.claim # "exact", {"InvalidSignature", "InvalidData"})
    [] OTHER -> {{"InvalidData"}}
VerifRemB(b) ==
  CASE b.proto = 0 -> Rule(b.al = 0, {"EthAddressMissing"}) \cup Rule(b.al # 0 /\ b.al # 20, {"InvalidEthAddressLength"})
    [] b.proto = 1 -> Rule(b.al = 0, {"SolAddressMissing"}) \cup Rule(b.al # 0 /\ b.al # 32, {"InvalidSolAddressLength"})
    [] OTHER -> {{"InvalidData"}}

(* channels *)
Chan(l) == Rule(l # 32, {"HubError"})
ChannelB(b) ==
  Chan(b.cl) \cup
  CASE b.k = "chan_update" -> Rule(b.cm \notin 0..3, {"HubError"}) \cup Rule(b.mm \notin 0..2, {"HubError"})
    [] b.k = "chan_member" -> Rule(b.fid \in {"0", "big"}, {"HubError"}) \cup Rule(b.act \notin 1..6, {"HubError"})
    [] b.k = "chan_pin" -> Rule(b.hl \notin {0, 20}, {"HubError"})
    [] b.k = "chan_moderate" -> Rule(b.hl # 20, {"HubError"}) \cup Rule(b.act \notin {1, 2}, {"HubError"})

BodyB(m) ==
  LET b == m.body IN
  CASE b.k = "none" -> {}
    [] b.k = "cast_add" -> CastB(m, b)
    [] b.k = "cast_remove" -> Rule(b.hl # 20, {"HashIsMissing"})
    [] b.k = "link" -> LinkB(b)
    [] b.k = "compact" -> CompactB(b)
    [] b.k = "reaction" -> ReactionB(b)
    [] b.k = "user_data" -> UserDataB(m, b)
    [] b.k = "proof" -> ProofB(m, b)
    [] b.k = "frame" -> FrameB(b)
    [] b.k = "lend" -> LendB(m, b)
    [] b.k = "key_add" -> KeyAddB(b)
    [] b.k = "key_remove" -> KeyRemB(b)
    [] b.k = "verif_add" -> VerifAddB(b)
    [] b.k = "verif_remove" -> VerifRemB(b)
    [] b.k \in {"chan_update", "chan_member", "chan_pin", "chan_moderate"} ->
         IF On(m, "ChannelMessages") THEN ChannelB(b) ELSE {{"InvalidMessageType"}}

Mainnet == 1
Broken(m) ==
  IF m.data = "missing" THEN {{"MissingData"}}
  ELSE IF m.data = "garbled" THEN {{"InvalidData"}}
  ELSE Rule(m.dlen > MaxData(m), {"DataBytesTooLong"}) \cup
       Rule(m.net \notin {1, 2, 3} \/ (m.cur = Mainnet /\ m.net # Mainnet), {"InvalidNetwork"}) \cup
       Rule(m.hs # 1, {"InvalidHashScheme"}) \cup Rule(m.hash # "ok", {"InvalidHash"}) \cup
       Rule(m.ss # 1, {"InvalidSignatureScheme"}) \cup
       Rule(m.sig = "empty", {"MissingSignature"}) \cup Rule(m.sig = "wrong", {"InvalidSignature"}) \cup
       Rule(m.signer = "bad", {"MissingOrInvalidSigner"}) \cup
       Rule(On(m, "FutureTimestampValidation") /\ m.ahead > 600, {"TimestampTooFarInFuture"}) \cup
       BodyB(m)

(* proofs held outside messages *)
Magic == <<22, 38, 186, 126>>
\* a contract wallet's proof: the wallet itself is asked if it exists, else a deployed helper
ContractOk(r) ==
  /\ r.code # "err" /\ r.reply.k = "ok"
  /\ IF r.code = "some" THEN StartsWith(r.reply.b, Magic) ELSE StartsWith(r.reply.b, <<1>>)
ContractAsked(r) ==
  /\ r.where
  /\ r.how # "none" => r.exact /\ r.how = (IF r.code = "some" THEN "call" ELSE "deploy")
Devnet == 3
FnameOk(r) == r.utf8 /\ (r.net = Devnet \/ r.exact)
RequestOk(r) == r.mt = 1 /\ r.decodes /\ r.fits /\ ~r.late /\ r.same

Judged(broken, res) == IF broken = {} THEN res = "ok" ELSE res # "ok" /\ \E s \in broken : res \in s
=============================================================================
