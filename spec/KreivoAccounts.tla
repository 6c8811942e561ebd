-------------------------- MODULE KreivoAccounts --------------------------
(* The accounts of the kreivo runtime, as their 32 bytes. Accounts of the    *)
(* runtime itself are "modl" . eight letters . what the account is for,      *)
(* filled up with zeros; a community's account is that of the letters        *)
(* kv/cmtys and the community number, low byte first.                        *)
EXTENDS Integers, Sequences

Fill(s) == [i \in 1 .. 32 |-> IF i <= Len(s) THEN s[i] ELSE 0]
Modl == <<109, 111, 100, 108>>
Sibl == <<115, 105, 98, 108>>                              \* accounts of sibling chains
CommunityTag == <<107, 118, 47, 99, 109, 116, 121, 115>>   \* kv/cmtys
TreasuryTag == <<112, 121, 47, 116, 114, 115, 114, 121>>   \* py/trsry
PaymentsTag == <<112, 97, 121, 109, 101, 110, 116, 115>>   \* payments
PassTag == <<107, 114, 101, 105, 118, 111, 95, 112>>       \* kreivo_p
Le16(c) == <<c % 256, c \div 256>>

User(i) == [n \in 1 .. 32 |-> i]
SubAccount(tag, rest) == Fill(Modl \o tag \o rest)
CommunityAccount(c) == SubAccount(CommunityTag, Le16(c))
Treasury == SubAccount(TreasuryTag, <<>>)

NoCommunity == -1
\* the community an account is the account of
CommunityOf(a) ==
    LET c == a[13] + 256 * a[14] IN IF a = CommunityAccount(c) THEN c ELSE NoCommunity
IsCommunity(a) == CommunityOf(a) # NoCommunity

\* accounts that look like a community's and are not
LookAlike(c) ==
    { SubAccount(PaymentsTag, Le16(c)), SubAccount(TreasuryTag, Le16(c)), SubAccount(PassTag, Le16(c)),
      SubAccount(<<107, 118, 47, 99, 109, 116, 121, 83>>, Le16(c)),                 \* kv/cmtyS
      [CommunityAccount(c) EXCEPT ![32] = 1], [CommunityAccount(c) EXCEPT ![15] = 1], [CommunityAccount(c) EXCEPT ![1] = 77],
      Fill(Sibl \o CommunityTag \o Le16(c)), Fill(CommunityTag \o Le16(c)), Fill(Le16(c)) }
=============================================================================
