dump_seq!(pest3_core::sequence::Sequence2<T0, R0, T1, R1>, field_0 T0 R0, field_1 T1 R1);
dump_cho!(pest3_core::choice::Choice2<T0, T1>, 0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1);
dump_seq!(pest3_core::sequence::Sequence3<T0, R0, T1, R1, T2, R2>, field_0 T0 R0, field_1 T1 R1, field_2 T2 R2);
dump_cho!(pest3_core::choice::Choice3<T0, T1, T2>, 0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2);
dump_seq!(pest3_core::sequence::Sequence4<T0, R0, T1, R1, T2, R2, T3, R3>, field_0 T0 R0, field_1 T1 R1, field_2 T2 R2, field_3 T3 R3);
dump_cho!(pest3_core::choice::Choice4<T0, T1, T2, T3>, 0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3);
dump_seq!(pest3_core::sequence::Sequence5<T0, R0, T1, R1, T2, R2, T3, R3, T4, R4>, field_0 T0 R0, field_1 T1 R1, field_2 T2 R2, field_3 T3 R3, field_4 T4 R4);
dump_cho!(pest3_core::choice::Choice5<T0, T1, T2, T3, T4>, 0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4);
dump_seq!(pest3_core::sequence::Sequence6<T0, R0, T1, R1, T2, R2, T3, R3, T4, R4, T5, R5>, field_0 T0 R0, field_1 T1 R1, field_2 T2 R2, field_3 T3 R3, field_4 T4 R4, field_5 T5 R5);
dump_cho!(pest3_core::choice::Choice6<T0, T1, T2, T3, T4, T5>, 0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5);
dump_seq!(pest3_core::sequence::Sequence7<T0, R0, T1, R1, T2, R2, T3, R3, T4, R4, T5, R5, T6, R6>, field_0 T0 R0, field_1 T1 R1, field_2 T2 R2, field_3 T3 R3, field_4 T4 R4, field_5 T5 R5, field_6 T6 R6);
dump_cho!(pest3_core::choice::Choice7<T0, T1, T2, T3, T4, T5, T6>, 0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6);
dump_seq!(pest3_core::sequence::Sequence8<T0, R0, T1, R1, T2, R2, T3, R3, T4, R4, T5, R5, T6, R6, T7, R7>, field_0 T0 R0, field_1 T1 R1, field_2 T2 R2, field_3 T3 R3, field_4 T4 R4, field_5 T5 R5, field_6 T6 R6, field_7 T7 R7);
dump_cho!(pest3_core::choice::Choice8<T0, T1, T2, T3, T4, T5, T6, T7>, 0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7);
dump_seq!(pest3_core::sequence::Sequence9<T0, R0, T1, R1, T2, R2, T3, R3, T4, R4, T5, R5, T6, R6, T7, R7, T8, R8>, field_0 T0 R0, field_1 T1 R1, field_2 T2 R2, field_3 T3 R3, field_4 T4 R4, field_5 T5 R5, field_6 T6 R6, field_7 T7 R7, field_8 T8 R8);
dump_cho!(pest3_core::choice::Choice9<T0, T1, T2, T3, T4, T5, T6, T7, T8>, 0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7, 8 Choice8 T8 choice_8);
dump_seq!(pest3_core::sequence::Sequence10<T0, R0, T1, R1, T2, R2, T3, R3, T4, R4, T5, R5, T6, R6, T7, R7, T8, R8, T9, R9>, field_0 T0 R0, field_1 T1 R1, field_2 T2 R2, field_3 T3 R3, field_4 T4 R4, field_5 T5 R5, field_6 T6 R6, field_7 T7 R7, field_8 T8 R8, field_9 T9 R9);
dump_cho!(pest3_core::choice::Choice10<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9>, 0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7, 8 Choice8 T8 choice_8, 9 Choice9 T9 choice_9);
dump_seq!(pest3_core::sequence::Sequence11<T0, R0, T1, R1, T2, R2, T3, R3, T4, R4, T5, R5, T6, R6, T7, R7, T8, R8, T9, R9, T10, R10>, field_0 T0 R0, field_1 T1 R1, field_2 T2 R2, field_3 T3 R3, field_4 T4 R4, field_5 T5 R5, field_6 T6 R6, field_7 T7 R7, field_8 T8 R8, field_9 T9 R9, field_10 T10 R10);
dump_cho!(pest3_core::choice::Choice11<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>, 0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7, 8 Choice8 T8 choice_8, 9 Choice9 T9 choice_9, 10 Choice10 T10 choice_10);
dump_seq!(pest3_core::sequence::Sequence12<T0, R0, T1, R1, T2, R2, T3, R3, T4, R4, T5, R5, T6, R6, T7, R7, T8, R8, T9, R9, T10, R10, T11, R11>, field_0 T0 R0, field_1 T1 R1, field_2 T2 R2, field_3 T3 R3, field_4 T4 R4, field_5 T5 R5, field_6 T6 R6, field_7 T7 R7, field_8 T8 R8, field_9 T9 R9, field_10 T10 R10, field_11 T11 R11);
dump_cho!(pest3_core::choice::Choice12<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>, 0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7, 8 Choice8 T8 choice_8, 9 Choice9 T9 choice_9, 10 Choice10 T10 choice_10, 11 Choice11 T11 choice_11);
dump_seq!(pest3_core::sequence::Sequence13<T0, R0, T1, R1, T2, R2, T3, R3, T4, R4, T5, R5, T6, R6, T7, R7, T8, R8, T9, R9, T10, R10, T11, R11, T12, R12>, field_0 T0 R0, field_1 T1 R1, field_2 T2 R2, field_3 T3 R3, field_4 T4 R4, field_5 T5 R5, field_6 T6 R6, field_7 T7 R7, field_8 T8 R8, field_9 T9 R9, field_10 T10 R10, field_11 T11 R11, field_12 T12 R12);
dump_cho!(pest3_core::choice::Choice13<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12>, 0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7, 8 Choice8 T8 choice_8, 9 Choice9 T9 choice_9, 10 Choice10 T10 choice_10, 11 Choice11 T11 choice_11, 12 Choice12 T12 choice_12);
dump_seq!(pest3_core::sequence::Sequence14<T0, R0, T1, R1, T2, R2, T3, R3, T4, R4, T5, R5, T6, R6, T7, R7, T8, R8, T9, R9, T10, R10, T11, R11, T12, R12, T13, R13>, field_0 T0 R0, field_1 T1 R1, field_2 T2 R2, field_3 T3 R3, field_4 T4 R4, field_5 T5 R5, field_6 T6 R6, field_7 T7 R7, field_8 T8 R8, field_9 T9 R9, field_10 T10 R10, field_11 T11 R11, field_12 T12 R12, field_13 T13 R13);
dump_cho!(pest3_core::choice::Choice14<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13>, 0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7, 8 Choice8 T8 choice_8, 9 Choice9 T9 choice_9, 10 Choice10 T10 choice_10, 11 Choice11 T11 choice_11, 12 Choice12 T12 choice_12, 13 Choice13 T13 choice_13);
dump_seq!(pest3_core::sequence::Sequence15<T0, R0, T1, R1, T2, R2, T3, R3, T4, R4, T5, R5, T6, R6, T7, R7, T8, R8, T9, R9, T10, R10, T11, R11, T12, R12, T13, R13, T14, R14>, field_0 T0 R0, field_1 T1 R1, field_2 T2 R2, field_3 T3 R3, field_4 T4 R4, field_5 T5 R5, field_6 T6 R6, field_7 T7 R7, field_8 T8 R8, field_9 T9 R9, field_10 T10 R10, field_11 T11 R11, field_12 T12 R12, field_13 T13 R13, field_14 T14 R14);
dump_cho!(pest3_core::choice::Choice15<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14>, 0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7, 8 Choice8 T8 choice_8, 9 Choice9 T9 choice_9, 10 Choice10 T10 choice_10, 11 Choice11 T11 choice_11, 12 Choice12 T12 choice_12, 13 Choice13 T13 choice_13, 14 Choice14 T14 choice_14);
dump_seq!(pest3_core::sequence::Sequence16<T0, R0, T1, R1, T2, R2, T3, R3, T4, R4, T5, R5, T6, R6, T7, R7, T8, R8, T9, R9, T10, R10, T11, R11, T12, R12, T13, R13, T14, R14, T15, R15>, field_0 T0 R0, field_1 T1 R1, field_2 T2 R2, field_3 T3 R3, field_4 T4 R4, field_5 T5 R5, field_6 T6 R6, field_7 T7 R7, field_8 T8 R8, field_9 T9 R9, field_10 T10 R10, field_11 T11 R11, field_12 T12 R12, field_13 T13 R13, field_14 T14 R14, field_15 T15 R15);
dump_cho!(pest3_core::choice::Choice16<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15>, 0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7, 8 Choice8 T8 choice_8, 9 Choice9 T9 choice_9, 10 Choice10 T10 choice_10, 11 Choice11 T11 choice_11, 12 Choice12 T12 choice_12, 13 Choice13 T13 choice_13, 14 Choice14 T14 choice_14, 15 Choice15 T15 choice_15);
