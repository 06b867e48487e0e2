// functions the executor provides
enum Builtin {
    B_NONE = -1, B_NEW, B_DELETE, B_MALLOC, B_CALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_MEMCMP, B_NOP, B_RET0, B_RET1, B_ARG0,
    B_THROW, B_RETHROW, B_BEGIN_CATCH, B_END_CATCH, B_ALLOC_EXC, B_TERMINATE, B_THROWSTD, B_GUARD, B_PURE,
    B_HASHN, B_HASH1, V_BYTES, V_U64, V_CHOOSE, V_ASSUME, V_ASSERT, V_EQ, V_HASH, V_COVER, V_PARAM, V_DEFINED, V_ISQRT, B_SQRT, V_ASSERT_BYTES, B_ABORT, V_SAME_BYTES
};
const std::map<std::string, int> builtin_names = {
    {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"_ZnwmSt11align_val_t", B_NEW}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEW},
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"free", B_FREE},
    {"_ZdlPv", B_DELETE}, {"_ZdaPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPvm", B_DELETE}, {"_ZdlPvSt11align_val_t", B_DELETE},
    {"_ZdlPvmSt11align_val_t", B_DELETE},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP},
    {"__cxa_atexit", B_RET0}, {"__cxa_guard_acquire", B_GUARD}, {"__cxa_guard_release", B_NOP}, {"__cxa_guard_abort", B_NOP},
    {"__cxa_free_exception", B_NOP}, {"__cxa_throw", B_THROW}, {"__cxa_rethrow", B_RETHROW}, {"__cxa_begin_catch", B_BEGIN_CATCH},
    {"__cxa_get_exception_ptr", B_ARG0}, {"__cxa_end_catch", B_END_CATCH}, {"__cxa_allocate_exception", B_ALLOC_EXC},
    {"_ZSt9terminatev", B_TERMINATE}, {"abort", B_ABORT}, {"__assert_fail", B_ABORT}, {"__cxa_pure_virtual", B_PURE}, {"__stack_chk_fail", B_ABORT},
    {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_ABORT}, {"exit", B_ABORT}, {"_Exit", B_ABORT},
    {"sha256_4_avx", B_HASHN}, {"sha256_8_avx2", B_HASHN}, {"sha256_shani", B_HASHN}, {"sha256_1_avx", B_HASH1},
    {"sqrt", B_SQRT}, {"sqrtf", B_SQRT},
    {"verif_bytes", V_BYTES}, {"verif_u64", V_U64}, {"verif_choose", V_CHOOSE}, {"verif_assume", V_ASSUME}, {"verif_assert", V_ASSERT},
    {"verif_bytes_eq", V_EQ}, {"verif_hash", V_HASH}, {"verif_cover", V_COVER}, {"verif_param", V_PARAM}, {"verif_defined", V_DEFINED},
    {"verif_isqrt_input", V_ISQRT}, {"verif_assert_bytes", V_ASSERT_BYTES}};
const std::map<std::string, std::string> throwers = {
    {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"},
    {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"},
    {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"},
    {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"},
    {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, {"_ZSt20__throw_range_errorPKc", "_ZTISt11range_error"},
    {"_ZSt20__throw_domain_errorPKc", "_ZTISt12domain_error"}, {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"},
    {"__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length"},
    {"_ZSt27__throw_bad_optional_accessv", "_ZTISt19bad_optional_access"}};
int builtin_id(const std::string& n) {
    auto it = builtin_names.find(n);
    if (it != builtin_names.end()) return it->second;
    if (throwers.count(n)) return B_THROWSTD;
    // constructors and destructors of the standard exceptions
    if (n.compare(0, 4, "_ZNS") == 0) {
        for (const char* c : {"t11logic_error", "t12out_of_range", "t16invalid_argument", "t12length_error", "t12domain_error", "t13runtime_error",
                              "t11range_error", "t14overflow_error", "t15underflow_error", "t9exception", "t9bad_alloc"})
            if (n.compare(4, std::strlen(c), c) == 0) {
                char x = n[4 + std::strlen(c)];
                if (x == 'C' || x == 'D') return B_NOP;
            }
    }
    return B_NONE;
}
