-------------------------------- MODULE Isa ---------------------------------
(* The instruction sets, written from the data sheets and not from pasm:     *)
(*   Nmos    the documented instructions of the 6502                         *)
(*   Illegal its undocumented instructions (option -i, .illegal on)          *)
(*   CmosExt what the 65C02 adds                                             *)
(* Addressing modes                                                          *)
(*   imp acc imm rel zp zpx zpy abs abx aby izx (zp,x) izy (zp),y            *)
(*   zpi (zp)  ind (abs)  aix (abs,x)                                        *)
EXTENDS Naturals, TLC, Sequences

Nmos ==
  "adc" :> [imm |-> 105, zp |-> 101, zpx |-> 117, abs |-> 109, abx |-> 125, aby |-> 121, izx |-> 97, izy |-> 113] @@
  "and" :> [imm |-> 41, zp |-> 37, zpx |-> 53, abs |-> 45, abx |-> 61, aby |-> 57, izx |-> 33, izy |-> 49] @@
  "asl" :> [acc |-> 10, zp |-> 6, zpx |-> 22, abs |-> 14, abx |-> 30] @@
  "bcc" :> [rel |-> 144] @@
  "bcs" :> [rel |-> 176] @@
  "beq" :> [rel |-> 240] @@
  "bit" :> [zp |-> 36, abs |-> 44] @@
  "bmi" :> [rel |-> 48] @@
  "bne" :> [rel |-> 208] @@
  "bpl" :> [rel |-> 16] @@
  "brk" :> [imp |-> 0] @@
  "bvc" :> [rel |-> 80] @@
  "bvs" :> [rel |-> 112] @@
  "clc" :> [imp |-> 24] @@
  "cld" :> [imp |-> 216] @@
  "cli" :> [imp |-> 88] @@
  "clv" :> [imp |-> 184] @@
  "cmp" :> [imm |-> 201, zp |-> 197, zpx |-> 213, abs |-> 205, abx |-> 221, aby |-> 217, izx |-> 193, izy |-> 209] @@
  "cpx" :> [imm |-> 224, zp |-> 228, abs |-> 236] @@
  "cpy" :> [imm |-> 192, zp |-> 196, abs |-> 204] @@
  "dec" :> [zp |-> 198, zpx |-> 214, abs |-> 206, abx |-> 222] @@
  "dex" :> [imp |-> 202] @@
  "dey" :> [imp |-> 136] @@
  "eor" :> [imm |-> 73, zp |-> 69, zpx |-> 85, abs |-> 77, abx |-> 93, aby |-> 89, izx |-> 65, izy |-> 81] @@
  "inc" :> [zp |-> 230, zpx |-> 246, abs |-> 238, abx |-> 254] @@
  "inx" :> [imp |-> 232] @@
  "iny" :> [imp |-> 200] @@
  "jmp" :> [abs |-> 76, ind |-> 108] @@
  "jsr" :> [abs |-> 32] @@
  "lda" :> [imm |-> 169, zp |-> 165, zpx |-> 181, abs |-> 173, abx |-> 189, aby |-> 185, izx |-> 161, izy |-> 177] @@
  "ldx" :> [imm |-> 162, zp |-> 166, zpy |-> 182, abs |-> 174, aby |-> 190] @@
  "ldy" :> [imm |-> 160, zp |-> 164, zpx |-> 180, abs |-> 172, abx |-> 188] @@
  "lsr" :> [acc |-> 74, zp |-> 70, zpx |-> 86, abs |-> 78, abx |-> 94] @@
  "nop" :> [imp |-> 234] @@
  "ora" :> [imm |-> 9, zp |-> 5, zpx |-> 21, abs |-> 13, abx |-> 29, aby |-> 25, izx |-> 1, izy |-> 17] @@
  "pha" :> [imp |-> 72] @@
  "php" :> [imp |-> 8] @@
  "pla" :> [imp |-> 104] @@
  "plp" :> [imp |-> 40] @@
  "rol" :> [acc |-> 42, zp |-> 38, zpx |-> 54, abs |-> 46, abx |-> 62] @@
  "ror" :> [acc |-> 106, zp |-> 102, zpx |-> 118, abs |-> 110, abx |-> 126] @@
  "rti" :> [imp |-> 64] @@
  "rts" :> [imp |-> 96] @@
  "sbc" :> [imm |-> 233, zp |-> 229, zpx |-> 245, abs |-> 237, abx |-> 253, aby |-> 249, izx |-> 225, izy |-> 241] @@
  "sec" :> [imp |-> 56] @@
  "sed" :> [imp |-> 248] @@
  "sei" :> [imp |-> 120] @@
  "sta" :> [zp |-> 133, zpx |-> 149, abs |-> 141, abx |-> 157, aby |-> 153, izx |-> 129, izy |-> 145] @@
  "stx" :> [zp |-> 134, zpy |-> 150, abs |-> 142] @@
  "sty" :> [zp |-> 132, zpx |-> 148, abs |-> 140] @@
  "tax" :> [imp |-> 170] @@
  "tay" :> [imp |-> 168] @@
  "tsx" :> [imp |-> 186] @@
  "txa" :> [imp |-> 138] @@
  "txs" :> [imp |-> 154] @@
  "tya" :> [imp |-> 152]

Illegal ==
  "ahx" :> [aby |-> 159, izy |-> 147] @@
  "alr" :> [imm |-> 75] @@
  "anc" :> [imm |-> 11] @@
  "anc2" :> [imm |-> 43] @@
  "arr" :> [imm |-> 107] @@
  "axs" :> [imm |-> 203] @@
  "dcp" :> [zp |-> 199, zpx |-> 215, abs |-> 207, abx |-> 223, aby |-> 219, izx |-> 195, izy |-> 211] @@
  "isc" :> [zp |-> 231, zpx |-> 247, abs |-> 239, abx |-> 255, aby |-> 251, izx |-> 227, izy |-> 243] @@
  "las" :> [aby |-> 187] @@
  "lax" :> [imm |-> 171, zp |-> 167, zpy |-> 183, abs |-> 175, aby |-> 191, izx |-> 163, izy |-> 179] @@
  "rla" :> [zp |-> 39, zpx |-> 55, abs |-> 47, abx |-> 63, aby |-> 59, izx |-> 35, izy |-> 51] @@
  "rra" :> [zp |-> 103, zpx |-> 119, abs |-> 111, abx |-> 127, aby |-> 123, izx |-> 99, izy |-> 115] @@
  "sax" :> [zp |-> 135, zpy |-> 151, abs |-> 143, izx |-> 131] @@
  "shx" :> [aby |-> 158] @@
  "shy" :> [abx |-> 156] @@
  "slo" :> [zp |-> 7, zpx |-> 23, abs |-> 15, abx |-> 31, aby |-> 27, izx |-> 3, izy |-> 19] @@
  "sre" :> [zp |-> 71, zpx |-> 87, abs |-> 79, abx |-> 95, aby |-> 91, izx |-> 67, izy |-> 83] @@
  "tas" :> [aby |-> 155] @@
  "usbc" :> [imm |-> 235] @@
  "xaa" :> [imm |-> 139]

CmosExt ==
  "adc" :> [zpi |-> 114] @@
  "and" :> [zpi |-> 50] @@
  "bit" :> [imm |-> 137, zpx |-> 52, abx |-> 60] @@
  "bra" :> [rel |-> 128] @@
  "cmp" :> [zpi |-> 210] @@
  "dec" :> [acc |-> 58] @@
  "eor" :> [zpi |-> 82] @@
  "inc" :> [acc |-> 26] @@
  "jmp" :> [aix |-> 124] @@
  "lda" :> [zpi |-> 178] @@
  "ora" :> [zpi |-> 18] @@
  "phx" :> [imp |-> 218] @@
  "phy" :> [imp |-> 90] @@
  "plx" :> [imp |-> 250] @@
  "ply" :> [imp |-> 122] @@
  "rmb0" :> [zp |-> 7] @@
  "rmb1" :> [zp |-> 23] @@
  "rmb2" :> [zp |-> 39] @@
  "rmb3" :> [zp |-> 55] @@
  "rmb4" :> [zp |-> 71] @@
  "rmb5" :> [zp |-> 87] @@
  "rmb6" :> [zp |-> 103] @@
  "rmb7" :> [zp |-> 119] @@
  "sbc" :> [zpi |-> 242] @@
  "smb0" :> [zp |-> 135] @@
  "smb1" :> [zp |-> 151] @@
  "smb2" :> [zp |-> 167] @@
  "smb3" :> [zp |-> 183] @@
  "smb4" :> [zp |-> 199] @@
  "smb5" :> [zp |-> 215] @@
  "smb6" :> [zp |-> 231] @@
  "smb7" :> [zp |-> 247] @@
  "sta" :> [zpi |-> 146] @@
  "stp" :> [imp |-> 219] @@
  "stz" :> [zp |-> 100, zpx |-> 116, abs |-> 156, abx |-> 158] @@
  "trb" :> [zp |-> 20, abs |-> 28] @@
  "tsb" :> [zp |-> 4, abs |-> 12] @@
  "wai" :> [imp |-> 203]

(* f overrides nothing of g here: the modes of both are joined *)
Merge(f, g) == [m \in DOMAIN f \cup DOMAIN g |->
                  IF m \in DOMAIN f /\ m \in DOMAIN g THEN f[m] @@ g[m]
                  ELSE IF m \in DOMAIN f THEN f[m] ELSE g[m]]
Cmos == Merge(Nmos, CmosExt)
NmosIllegal == Merge(Nmos, Illegal)

(* the instruction set in force; illegal instructions exist on the 6502 only *)
InstrSet(cpu, illegal) ==
  IF cpu = "65c02" THEN Cmos ELSE IF illegal THEN NmosIllegal ELSE Nmos

OneByteModes == {"imm", "rel", "zp", "zpx", "zpy", "izx", "izy", "zpi"}
TwoByteModes == {"abs", "abx", "aby", "ind", "aix"}
OperandBytes(mode) == IF mode \in OneByteModes THEN 1
                      ELSE IF mode \in TwoByteModes THEN 2 ELSE 0

(* syntax of an operand -> <<short mode, long mode>>; "" where there is none *)
SyntaxModes(syn) ==
  CASE syn = "imp"  -> <<"imp", "acc">>  (* asl = asl a *)
    [] syn = "acc"  -> <<"acc", "">>
    [] syn = "imm"  -> <<"imm", "">>
    [] syn = "dir"  -> <<"zp",  "abs">>
    [] syn = "dirx" -> <<"zpx", "abx">>
    [] syn = "diry" -> <<"zpy", "aby">>
    [] syn = "ind"  -> <<"zpi", "ind">>
    [] syn = "indx" -> <<"izx", "aix">>
    [] syn = "indy" -> <<"izy", "">>

IsBranch(cpu, illegal, m) ==
  /\ m \in DOMAIN InstrSet(cpu, illegal)
  /\ "rel" \in DOMAIN InstrSet(cpu, illegal)[m]

(* the branch taken exactly when the other is not *)
Inverse == "bcc" :> "bcs" @@ "bcs" :> "bcc" @@ "bne" :> "beq" @@ "beq" :> "bne" @@
           "bmi" :> "bpl" @@ "bpl" :> "bmi" @@ "bvc" :> "bvs" @@ "bvs" :> "bvc"

ASSUME \A b \in DOMAIN Inverse : Inverse[Inverse[b]] = b /\ Inverse[b] # b
(* no two mode/mnemonic pairs of one instruction set share an opcode *)
Pairs(s) == UNION {{<<m, a>> : a \in DOMAIN s[m]} : m \in DOMAIN s}
Injective(s) == \A p, q \in Pairs(s) : s[p[1]][p[2]] = s[q[1]][q[2]] => p = q
ASSUME Injective(Nmos) /\ Injective(Cmos) /\ Injective(NmosIllegal)
=============================================================================
