----------------------------- MODULE PddlLexicon -----------------------------
(* Names, as strings of characters. *)
EXTENDS PddlReader

Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
NameChars == Letters \cup Digits \cup {"-", "_"}

Char(s, i) == SubSeq(s, i, i)
IsWord(s) == /\ Len(s) >= 1
             /\ Char(s, 1) \in Letters
             /\ \A i \in 2..Len(s) : Char(s, i) \in NameChars

\* reserved words that are exempt in some positions
Exempt(ctx) == CASE ctx = "type" -> {Root} [] ctx = "function" -> {"total-cost"} [] OTHER -> {}

NameOk(ctx, s) == IsWord(s) /\ (s \in Keywords => s \in Exempt(ctx))
=============================================================================
