COMMON_TRUST = [
    'clang 18 front end and the AST exporter (exporter/exporter.cpp)',
    'the verification-condition generator (altrovc/*.py): C++ semantics, memory model, loop summaries, matrix normaliser',
    'z3 (SMT back end)',
    'contracts assumed for Eigen: matrix ring operations, blocks, maps, LLT (info()==Success iff the matrix is positive definite, solve is the exact inverse), norms',
    'contracts assumed for the standard library: vector, array, unordered_map, shared_ptr, unique_ptr, function, string',
    'fmt, iostream, timers and log entries have no effect on solver state',
    'machine arithmetic treated as mathematical: double as real, int without overflow',
]
