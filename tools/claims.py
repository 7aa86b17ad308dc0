RS = ('symbolic execution of the LLVM IR rustc emits over z3 (llsym), counterexamples replayed natively', 'model_checking',
      'Every path of the harness over every input within the stated bounds is decided by z3; symbolic lengths are not unrolled, every memory access is checked. '
      'Trusts the IR executor (validated each run by native replay of sampled paths), rustc and z3.')
for i in range(10, 18):
    CLAIM['C%02d' % i] = RS
TS = ("symbolic execution of the TypeScript compiler's output (syntax tree) over z3 (jssym), counterexamples replayed under node", 'model_checking',
      'Every path of the harness over every input within the stated bounds is decided by z3; symbolic lengths are not unrolled, out-of-range typed array accesses '
      'have their JavaScript meaning. Trusts the executor and its models of the built-in objects (validated each run by replaying sampled paths under node), the '
      'TypeScript compiler and z3.')
for i in range(18, 22):
    CLAIM['C%02d' % i] = TS
CLAIM['C27'] = TS
CLAIM['C25'] = GO
for i in (22, 23, 24):
    CLAIM['C%02d' % i] = ('symbolic execution over z3 (gosym) of the Go code the repository\'s generators write, counterexamples replayed natively', 'model_checking',
        'The generators are run on a family of schemas that covers every field kind, cardinality and nesting form; every path of the generated methods over every '
        'value within the stated bounds is decided by z3. Other schemas and larger lists and maps lie outside. Trusts the SSA executor (validated each run by native replay) and z3.')
CLAIM['C28'] = ('symbolic execution over z3 (llsym) of the LLVM IR rustc emits for the Rust code the repository\'s generators write, counterexamples replayed natively', 'model_checking',
    'The generators are run on a family of schemas that covers every field kind, cardinality and nesting form; every path of the generated methods over every '
    'value and input within the stated bounds is decided by z3. Other schemas and larger lists and maps lie outside; HashMap is a list of entries. '
    'Trusts the IR executor (validated each run by native replay of sampled paths), rustc and z3.')
NA['C26'] = ('The TypeScript generator targets a functional API that the TypeScript package removed: the code it writes does not compile against the package at this commit, '
             'so there is no real code to encode; repairing it means rewriting the generator.')
