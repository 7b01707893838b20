@@ drop use bitflags -- macro replaced by the generated struct
@@ drop use serde -- serialization framework
@@ drop impl TryFrom@Advice -- pure enum conversion, not used by a property
@@ drop impl From@u8 -- pure enum conversion, not used by a property
@@ fn Default@FdStat::default [C19]
    ensures r.flags.bits == 0, r.rights_base == 0xfffffff, r.rights_inheriting == 0xfffffff,
@@ hint Default@FdStat::default entry
    proof { assert((1u64 << 28) == 0x10000000) by (bit_vector); }
