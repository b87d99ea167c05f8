---------------------------- MODULE WordsTest ----------------------------
(* Compares Words with vectors computed by an independent implementation (Python integers). *)
EXTENDS Words, TLC, Json
CONSTANT File
Vec == JsonDeserialize(File)
VARIABLE i
F(op, a, b) == CASE op = "iadd" -> <<IAdd(a[1], b[1])>> [] op = "isub" -> <<ISub(a[1], b[1])>> [] op = "imul" -> <<IMul(a[1], b[1])>>
 [] op = "idiv" -> <<IDiv(a[1], b[1])>> [] op = "imod" -> <<IMod(a[1], b[1])>>
 [] op = "iand" -> <<IBitOp(BAnd, a[1], b[1])>> [] op = "ior" -> <<IBitOp(BOr, a[1], b[1])>> [] op = "ixor" -> <<IBitOp(BXor, a[1], b[1])>>
 [] op = "ishl" -> <<IShl(a[1], b[1])>> [] op = "ishr" -> <<IShr(a[1], b[1])>> [] op = "ipow" -> <<IPow(a[1], b[1])>>
 [] op = "ladd" -> LAdd(a, b) [] op = "lsub" -> LSub(a, b) [] op = "lmul" -> LMul(a, b) [] op = "ldiv" -> LDiv(a, b) [] op = "lmod" -> LMod(a, b)
 [] op = "land" -> LBitOp(BAnd, a, b) [] op = "lor" -> LBitOp(BOr, a, b) [] op = "lxor" -> LBitOp(BXor, a, b)
 [] op = "lshl" -> LShl(a, b[1]) [] op = "lshr" -> LShr(a, b[1]) [] op = "lpow" -> LPowI(a, b[1])
 [] op = "llt" -> <<IF LLt(a, b) THEN 1 ELSE 0>> [] op = "l2i" -> <<ToInt(a)>> [] op = "i2l" -> OfInt(a[1])
 [] op = "fadd" -> FAdd(a, b) [] op = "fsub" -> FSub(a, b) [] op = "fmul" -> FMul(a, b) [] op = "fdiv" -> FDiv(a, b) [] op = "fcmp" -> <<FCmp(a, b)>>
 [] op = "f2l" -> FToLong(a)[2] [] op = "l2f" -> FOfLong(a)
Init == i = 1
Next == /\ i <= Len(Vec)
        /\ LET v == Vec[i]  r == F(v[1], v[2], v[3]) IN
           IF r = v[4] \/ r = FUnk \/ r = <<9>> THEN TLCSet(1, TLCGet(1) + (IF r = v[4] THEN 1 ELSE 0)) ELSE PrintT(<<"MISMATCH", v, r>>) /\ Assert(FALSE, "words")
        /\ i' = i + 1
ASSUME TLCSet(1, 0)
Spec == Init /\ [][Next]_i
Done == TLCGet("stats").diameter - 1 = Len(Vec) /\ PrintT(<<"exact", TLCGet(1), "of", Len(Vec)>>)
==========================================================================
