"""Single source for properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
L = 'libeantic/'
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note, claim=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, claim=claim, na=na))


AI = 'abstract interpretation of the LLVM IR: symbolic value domain, all paths, per field kind and aliasing pattern'

p('C01', 'C arithmetic and assignment produce the exact value, under any aliasing',
  'Every element arithmetic and assignment function of the C library (addition, subtraction, multiplication, division, negation, inversion, powers, each with element, machine-integer, big-integer and rational operands, and setting from any supported type) stores exactly the mathematically documented value. This holds for number fields of degree one, two and higher, and also when the result coincides with one or several operands.',
  ['inputs'], 'every operand value, every field degree class, every aliasing pattern of the element arguments',
  'the tests sample random operands and few aliasing patterns; a wrong branch for one operand kind or one aliasing pattern is not reached',
  [L + 'src/renf_elem/*.c', L + 'e-antic/renf_elem.h'],
  [('exact part computed by FLINT number field arithmetic', L + 'src/renf_elem/add.c'), ('rational minus/divided by element', L + 'src/renf_elem/fmpq_div.c'), ('generator', L + 'src/renf_elem/gen.c')],
  AI, 'every exit of every function discharged symbolically; FLINT itself is trusted through summaries')

p('C02', 'Every stored enclosure contains the exact value it stands for',
  'After every public element function returns, the real ball stored with each element argument contains the image of the exact element under the chosen real embedding, and the ball stored with the field still contains the chosen root. No operation, precision or aliasing pattern may leave a ball that belongs to other data.',
  ['inputs', 'histories'], 'all element values, precisions, field kinds, aliasing patterns and call sequences (as an inductive invariant: it is assumed at entry and shown at exit)',
  'a wrong ball only changes results when a later comparison happens to rely on it; tests almost never look at the ball itself',
  [L + 'src/renf_elem/*.c', L + 'src/fmpq_poly_extra/evaluate.c', L + 'src/fmpz_poly_extra/evaluate.c'],
  [('evaluation of an element at the embedding', L + 'src/renf_elem/set_evaluation.c'), ('Horner evaluation', L + 'src/fmpz_poly_extra/evaluate.c')],
  AI, 'inductive invariant over the whole element API')

p('C03', 'Refining the embedding never loses the chosen root',
  'Refining the real embedding of a field to any precision keeps the ball around the same root of the defining polynomial: a refinement step reports success only when its result is certified to contain the root that the previous ball contained, and a failed step never replaces the embedding.',
  ['inputs', 'histories'], 'all polynomials, isolating balls, working precisions and sequences of successful and failed refinement steps',
  'which step fails at which precision depends on rounding of the particular ball; tests cannot enumerate the histories of step outcomes',
  [L + 'src/renf/refine_embedding.c', L + 'src/fmpz_poly_extra/newton_step_arb.c', L + 'src/fmpz_poly_extra/bisection_step_arb.c'],
  [('interval Newton step', L + 'src/fmpz_poly_extra/newton_step_arb.c'), ('bisection step', L + 'src/fmpz_poly_extra/bisection_step_arb.c'), ('refinement loop', L + 'src/renf/refine_embedding.c')],
  AI, 'the steps are shown to return balls containing the root whenever they report success; the loop only installs such balls')

p('C04', 'Signs, comparisons and predicates are certified, never guessed',
  'The sign of an element, every three-way comparison (with elements, machine integers, big integers and rationals) and every predicate (equality, being zero, one, rational, an integer) returns the mathematically correct answer for all elements of all fields. An answer taken from real balls is returned only when the balls decide it strictly; otherwise the exact value decides.',
  ['inputs'], 'all pairs of elements and scalars, including equal and arbitrarily close values, all field kinds, and comparing an element with itself',
  'wrong answers need values whose balls touch or overlap in a particular way; random tests hit these with negligible probability',
  [L + 'src/renf_elem/sgn.c', L + 'src/renf_elem/cmp.c', L + 'src/renf_elem/cmp_fmpq.c', L + 'src/renf_elem/is_rational.c', L + 'src/renf_elem/equal.c'],
  [('sign', L + 'src/renf_elem/sgn.c'), ('comparison of elements', L + 'src/renf_elem/cmp.c'), ('comparison with rationals', L + 'src/renf_elem/cmp_fmpq.c')],
  AI, 'each return value must be implied by the facts established on its path; includes the contracts of everything called')

p('C05', 'Floor, ceiling and floor division return the exact integer',
  'Floor and ceiling of an element and floor division of one element by another return exactly the mathematically correct integer for every element and every nonzero divisor of either sign, in fields of any degree, including values that are integers, zero, negative or arbitrarily close to an integer.',
  ['inputs'], 'all elements and nonzero divisors, all field kinds, dividend and divisor possibly the same object',
  'off-by-one results only occur for values extremely close to integers or particular sign combinations',
  [L + 'src/renf_elem/rounding_template.h', L + 'src/renf_elem/floor_ceil.c', L + 'src/renf_elem/fdiv.c'],
  [('floor and ceiling', L + 'src/renf_elem/rounding_template.h'), ('floor division', L + 'src/renf_elem/fdiv.c')],
  AI, 'the written integer is shown equal to the floor/ceiling of the exact value on every path')

p('C06', 'Conversion to double rounds the exact value in the requested mode',
  'Converting an element to a double returns the correct rounding of the exact real value in each of the five supported rounding modes, for positive and negative, rational and irrational values; an infinity is returned only for values outside of the finite range of doubles. Conversion to a real ball returns a ball containing the exact value.',
  ['inputs'], 'all elements, all five rounding modes, all field kinds, requested ball precisions',
  'tests compare a few values in round-to-nearest; a wrong directed mode or a boundary decided from one end of the ball stays invisible',
  [L + 'src/renf_elem/get_d.c', L + 'src/renf_elem/get_arb.c'],
  [('double conversion', L + 'src/renf_elem/get_d.c'), ('ball conversion', L + 'src/renf_elem/get_arb.c')],
  AI, 'both ends of the enclosure must round to the returned double in the mode derived from the request')

p('C07', 'Operations leave their input operands and the field unchanged in value',
  'No element function of the C library changes the exact value of an argument that is not its documented output: queries, comparisons, conversions and arithmetic leave the exact value of every input element and scalar, and the defining polynomial and chosen root of the field, exactly as they were, even though they may sharpen stored balls.',
  ['inputs'], 'all inputs and paths, including those that temporarily modify an operand',
  'a temporary modification that is not undone shows only on rarely taken paths and only when the operand is used again',
  [L + 'src/renf_elem/*.c', L + 'src/renf/*.c', L + 'e-antic/renf_elem.h'],
  [('double conversion negates its argument temporarily', L + 'src/renf_elem/get_d.c')],
  AI, 'frame condition checked on every exit of every function in the table')

p('C08', 'Field construction and copies hold consistent data',
  'A field constructed from a polynomial and an isolating ball, as an n-th root, from the real roots of a polynomial, or as a copy of another field holds exactly the given polynomial, its derivative, the requested working precision and a ball around the selected root, is freshly mutable, and shares no storage with its source. A polynomial and ball are reported as isolating a unique real root only with a certificate, and the immutability flag reports its previous value when it is changed and blocks refinement while set.',
  ['inputs', 'configurations'], 'all polynomials, balls, precisions, degrees and source fields',
  'inconsistent derivative or precision only slows down or breaks refinement much later; tests construct few fields',
  [L + 'src/renf/init.c', L + 'src/renf/init_set.c', L + 'src/renf/init_nth_root.c', L + 'src/renf/set_embeddings_fmpz_poly.c', L + 'src/renf/set_immutable.c', L + 'src/fmpq_poly_extra/check_unique_real_root.c', L + 'src/renf/equal.c'],
  [('construction', L + 'src/renf/init.c'), ('copy', L + 'src/renf/init_set.c'), ('isolation certificate', L + 'src/fmpq_poly_extra/check_unique_real_root.c'), ('immutability flag', L + 'src/renf/set_immutable.c')],
  AI, 'post-state of each constructor compared with its specification; the real root isolation algorithm itself is trusted')

p('C09', 'Undecided refinement rounds always retry with strictly more precision',
  'Whenever a sign, comparison, rounding or conversion cannot yet be decided from the current balls, the next attempt asks for a strictly higher precision of the embedding and re-evaluates all balls it is about to test; a refinement round in which no step succeeds is repeated only with more working precision. No loop repeats a round with unchanged inputs, so no query hangs.',
  ['inputs', 'histories'], 'all rounds of all refinement loops',
  'a loop that stops making progress hangs only for inputs close enough that the first rounds fail',
  [L + 'src/renf_elem/sgn.c', L + 'src/renf_elem/fdiv.c', L + 'src/renf_elem/rounding_template.h', L + 'src/renf_elem/get_d.c', L + 'src/renf_elem/get_arb.c', L + 'src/renf/refine_embedding.c'],
  [('refinement loop', L + 'src/renf/refine_embedding.c'), ('sign loop', L + 'src/renf_elem/sgn.c')],
  'abstract interpretation: two symbolic rounds of each loop from its invariant are compared', 'progress of every round; convergence of the numerical method itself is not claimed')

p('C10', 'The C library neither leaks nor misuses any object on any path',
  'On every normally returning path, every number, polynomial, ball, element and memory block that a C library function creates for itself is released exactly once, nothing is used before it is initialised or after it is released, and clearing an element or a field releases everything that its initialisation acquired.',
  ['inputs'], 'all normally returning paths of all C library functions',
  'leaks and premature releases on early-return paths do not change results and need a special input to be reached',
  [L + 'src/renf_elem/*.c', L + 'src/renf/*.c', L + 'src/fmpz_poly_extra/*.c', L + 'src/fmpq_poly_extra/*.c'],
  [('early returns', L + 'src/renf_elem/cmp_fmpq.c'), ('field initialisation and clearing', L + 'src/renf/clear.c')],
  'typestate analysis on the LLVM IR (life cycle of every FLINT/Arb object and heap block, all paths)', 'all functions of the C library; paths ending in abort are exempt')

XF = [L + 'srcxx/renf_elem_class.cpp', L + 'e-antic/renf_elem_class.hpp']
AX = AI + ', C++ classes included (exception paths, ownership of element storage, intrusive reference counts)'

p('C11', 'C++ elements are constructed and assigned with exactly the given value',
  'Every constructor and assignment of the C++ element type (from machine integers, GMP integers and rationals, text, coefficient vectors, copies, moves, swaps and coercion into another field) leaves the target with exactly the given value and in the documented field. If it throws instead, the objects involved keep their previous values.',
  ['inputs', 'configurations'], 'all source values and fields (rational, quadratic, higher degree), self-assignment, assignment across fields, every exception path',
  'the C++ tests sample a few values of a few fields; representation switches between fields and exception paths are rarely exercised',
  XF, [('representation switch on assignment', L + 'srcxx/renf_elem_class.cpp'), ('coercing constructor', L + 'srcxx/renf_elem_class.cpp')],
  AX, 'every overload and field combination; C functions through their verified contracts')

p('C12', 'C++ arithmetic operators give the exact result in the right field',
  'Every C++ arithmetic operator on elements and mixed with machine integers, GMP integers and rationals, and every power, gives exactly the mathematical result in a field containing it, for operands in the same field, for rational operands in different fields and when both operands are the same object. Operations on irrational elements of unrelated fields and divisions by zero raise an exception instead of giving a result.',
  ['inputs', 'configurations'], 'all operand values, scalar types, operand orders and field combinations',
  'there are dozens of overloads times field combinations times scalar ranges; tests sample a few',
  XF, [('compound operators with mixed fields', L + 'srcxx/renf_elem_class.cpp')],
  AX, 'every overload and field combination; C functions through their verified contracts')

p('C13', 'C++ comparisons, predicates and conversions follow the exact value',
  'Every C++ relational operator, predicate and conversion (equality and order against elements, machine integers and GMP numbers, zero/one/rational/integer tests, floor, ceiling, floor division, conversions to GMP integers, rationals and doubles, and access to the coefficients) answers according to the exact value. Conversions that are impossible raise an exception, and equality across different fields is decided without an invalid access.',
  ['inputs', 'configurations'], 'all operand values including machine integer limits, all field combinations',
  'wrong answers need particular field combinations or boundary values of a scalar type',
  XF, [('relational operators with mixed fields', L + 'srcxx/renf_elem_class.cpp')],
  AX, 'every overload and field combination; C functions through their verified contracts')

p('C14', 'C++ objects never leak, share or dangle, also when exceptions are thrown',
  'On every return and on every exception of the C++ interface, each element storage is owned by exactly one live object with the layout of its field, every temporary resource is released exactly once, no lock stays held, and the reference count of each field equals the number of objects that refer to it.',
  ['inputs', 'faults'], 'all normal and exceptional exits of every constructor, destructor, assignment and operator of the C++ interface',
  'leaks and double releases on exception paths do not change results and need a failing input to be reached',
  XF + [L + 'srcxx/renf_class.cpp', L + 'e-antic/renf_class.hpp'], [('exception paths of constructors', L + 'srcxx/renf_elem_class.cpp'), ('field ownership', L + 'srcxx/renf_class.cpp')],
  'ownership and typestate analysis of the C++ interface on the LLVM IR (all paths, exceptions included)', 'every obligation of the C++ table; allocation failure is not modelled')

p('C15', 'Equal fields are one object, alive exactly while referenced, in any schedule',
  'Making a number field with the same polynomial, real root and generator name gives the same field object as long as anybody refers to it, and fields that differ in any of these are different objects. For every interleaving of threads that make, copy and release fields, a field is destroyed exactly once, only after its last reference is gone, and never while it can still be handed out.',
  ['schedules', 'histories'], 'all interleavings of making, referencing and releasing fields in any number of threads',
  'the windows are a few instructions wide and the existing tests are single threaded',
  [L + 'srcxx/renf_class.cpp', L + 'e-antic/renf_class.hpp'],
  [('registry lookup and insertion', L + 'srcxx/renf_class.cpp'), ('release of the last reference', L + 'srcxx/renf_class.cpp'), ('reference count', L + 'e-antic/renf_class.hpp')],
  'thread-modular abstract interpretation with lock sets: each function against an environment of arbitrary other threads', 'registry functions only; the standard containers and the mutex are trusted')

p('C16', 'Printed forms show exactly the stored value',
  'Every text form of an element or field (C strings, output to a file or stream, C++ strings) names the exact value as a polynomial in the generator, or a ball that encloses it, or both, exactly as requested by the format flags, and for a field its polynomial and a ball around its root. Printing stays inside the memory it allocates and leaves the printed object unchanged.',
  ['inputs', 'configurations'], 'all values, generator names, format flags and fields',
  'a swapped part or a short buffer shows only for particular values, flags and lengths of names',
  [L + 'src/renf_elem/get_str_pretty.c', L + 'src/renf/get_str.c', L + 'src/renf_elem/print_pretty.c', L + 'src/renf/print.c'] + XF + [L + 'srcxx/renf_class.cpp'],
  [('string of an element', L + 'src/renf_elem/get_str_pretty.c'), ('C++ output', L + 'srcxx/renf_elem_class.cpp')],
  AI + ' with a symbolic text domain', 'structure of the text; the digits produced by FLINT/Arb are trusted')

p('C17', 'Equal elements and equal fields have equal hashes',
  'The hash of an element is determined by its exact value alone, so elements that compare equal, also when they live in different fields or their stored enclosures differ, hash equally. The hash of a field is determined by what identifies the field, and comparing fields for equality agrees with it.',
  ['inputs', 'histories'], 'all elements, fields and refinement histories',
  'a hash that depends on the state of refinement or on the representation differs only after particular histories',
  XF + [L + 'srcxx/renf_class.cpp'], [('hash of elements', L + 'srcxx/renf_elem_class.cpp'), ('hash of fields', L + 'srcxx/renf_class.cpp')],
  AI + ': dependency of the hash on its inputs', 'dependencies and agreement between representations; hash quality is not claimed')

p('C18', 'Fields made from text are exactly the described fields',
  'Making a field from a polynomial, a generator name and a ball, given as text or supplied on demand for a requested precision, yields the field of exactly that polynomial, generator name and precision with a ball certified to contain exactly one real root, and a supplier is asked again only for more precision. Malformed text and balls that never isolate a root raise an exception and leave nothing behind. The construction data a field reports are its own polynomial, generator name, precision and an enclosure of its root that is precise enough to make it again.',
  ['inputs', 'faults'], 'all texts, suppliers (also throwing ones), precisions and fields',
  'the retry and failure paths depend on balls that barely fail to isolate a root and on suppliers that throw',
  [L + 'srcxx/renf_class.cpp', L + 'e-antic/renf_class.hpp'],
  [('construction from text', L + 'srcxx/renf_class.cpp')],
  AX, 'all paths of construction from text and of the construction data; text parsers are trusted')

p('C19', 'Serialized fields and elements are restored exactly',
  'Saving an element or a field and loading it again gives an equal element in the same field, or the same field: entries are read back in the order in which they were written and each ends up where it came from. A field that occurs several times in an archive is written once, every occurrence comes back as the same field, and different fields are never confused, even when they do not live at the same time. Malformed data raise an exception and leave nothing behind.',
  ['inputs', 'histories'], 'all elements, fields and sequences of saves and loads in one archive',
  'confusions need fields released and recreated between two saves, and order or naming errors only show for archive formats the tests do not use',
  [L + 'e-antic/cereal.hpp'], [('save and load', L + 'e-antic/cereal.hpp')],
  AX + ', the templates instantiated with archives whose primitives are modelled', 'saving and loading of fields and elements for positional and for named archives; the archive itself is trusted')

p('C20', 'Continued fraction expansions consist of the exact partial quotients',
  'The continued fraction of an element lists the exact partial quotients in order: each is the floor of the exact remainder, at most the requested number is produced, and fewer only when the expansion of a rational number ends. The remainder handed back continues the same expansion, and the expanded element is not changed unless it is the remainder argument itself.',
  ['inputs', 'configurations'], 'all elements, fields and numbers of requested quotients',
  'expansions that end exactly at the requested length, integers and aliased arguments are special inputs no test contains',
  [L + 'src/renf_elem/get_cfrac.c'], [('expansion loop', L + 'src/renf_elem/get_cfrac.c')],
  AI, 'requests of up to 3 (quick) or 6 (thorough) quotients, all values; called functions through their verified contracts')

Z = L + 'src/fmpz_poly_extra/'
AL = AI + ' with a convex-polyhedra component for coefficient signs'
p('C21', 'Real root isolation finds every real root exactly once',
  'For a nonzero integer polynomial without multiple nonzero roots, isolation reports pairwise disjoint dyadic intervals and exact rational roots in increasing order, such that each reported interval contains exactly one root and every real root is reported exactly once, with the signs, scales and counts consistent, also when only some of the outputs are requested. The bound used for the positive roots exceeds all of them.',
  ['inputs', 'configurations'], 'all integer coefficients, roots at zero and at dyadic points, and all combinations of requested outputs',
  'missed roots need particular sign patterns, roots at bisection points or bounds that are barely too small; random polynomials in tests practically never have them',
  [Z + 'isolate_real_roots.c', Z + 'positive_root_upper_bound_2exp.c', Z + 'descartes_bound_0_1.c'],
  [('bisection', Z + 'isolate_real_roots.c'), ('root test', Z + 'descartes_bound_0_1.c'), ('bound', Z + 'positive_root_upper_bound_2exp.c')],
  AL, 'all coefficient values for up to 4 (thorough: 5) coefficients, bisections of depth 2 (thorough: 3), up to 5 intervals and 4 exact roots per side')

p('C22', 'Counts and existence of real roots are exact',
  'The number of real roots of a squarefree integer polynomial, on the whole line or on the unit interval, the answer whether a polynomial has a real root, and the bound on the number of its roots are right for every polynomial. The operations behind them are exact: the change of variable to the unit interval, the squarefree part and coefficientwise absolute values.',
  ['inputs'], 'all integer coefficients and rational interval ends',
  'errors show only when a polynomial of the remainder sequence vanishes at an end of the interval, or for particular sign patterns',
  [Z + 'num_real_roots_0_1_sturm.c', Z + 'num_real_roots_0_1_vca.c', Z + 'num_real_roots_vca.c', Z + 'has_real_root.c', Z + 'descartes_bound.c', Z + 'scale_0_1_fmpq.c', Z + 'squarefree_part.c', Z + 'abs.c'],
  [('Sturm count', Z + 'num_real_roots_0_1_sturm.c'), ('existence', Z + 'has_real_root.c'), ('change of variable', Z + 'scale_0_1_fmpq.c')],
  AL, 'all coefficient values for up to 4 or 5 coefficients; remainder sequences of up to 3 polynomials')

p('C23', 'Polynomials read from text are exactly the ones the text denotes',
  'Reading a polynomial from text gives exactly the polynomial that the text denotes: a sum of terms with signs, an optional integer or fractional coefficient, an optional multiplication sign, the generator name and an optional exponent, with spaces in between. Every other text, a zero denominator, an exponent that is too large, a generator name that is not an identifier and, for integer polynomials, a result that is not integral are reported as errors. Reading never accesses memory outside of the given texts and its own buffer and releases everything it creates.',
  ['inputs'], 'all texts and generator names, valid and malformed',
  'tests list some thirty texts and the output of one printer; the space of texts is unbounded and most errors concern a single unusual character or order of characters',
  [L + 'src/fmpq_poly_extra/set_str_pretty.c', L + 'src/fmpz_poly_extra/set_str_pretty.c'],
  [('terms', L + 'src/fmpq_poly_extra/set_str_pretty.c'), ('integer polynomials', L + 'src/fmpz_poly_extra/set_str_pretty.c')],
  'abstract interpretation of the LLVM IR over texts with character-set domains, symbolic digits and formal polynomials, against the documented grammar', 'every text of up to 5 (thorough: 6) bytes and every text that differs in one byte from longer typical ones')

p('C24', 'Elements read from a stream are the ones its text denotes',
  'Reading an element from a stream to which a field is attached skips white space and takes exactly the text of the next element, i.e., everything inside a pair of parentheses or everything up to the next white space or the end, ignoring white space in the parentheses, and assigns the element that this text denotes in that field; everything behind it stays in the stream, which remains usable. When nothing is left, the element is unfinished or its text is malformed, this is reported by an exception or a failed stream and nothing but zero replaces the previous value. Nothing leaks and the attached field is the one that was attached last.',
  ['inputs'], 'all texts in a stream, with any white space, any number of elements and both white space modes',
  'tests read back a single printed element from the start of a stream and ignore the state of the stream; the text constructor tests never see what is left behind',
  [L + 'srcxx/renf_class.cpp'],
  [('operator>>', L + 'srcxx/renf_class.cpp'), ('attached field', L + 'srcxx/renf_class.cpp')],
  'abstract interpretation of the LLVM IR with character-set domains and a model of standard streams, against a reference of which characters form the next element', 'every text of up to 6 (thorough: 8) bytes for one element and 5 (7) for two in a row')

p('C25', 'Threads interfere neither through hidden state nor on immutable fields',
  'Operations on different elements and fields share no mutable state apart from the synchronised collection of fields, so that they can run in different threads. After its construction a field only changes when its embedding is refined, which is refused while the field is marked immutable, and marking a field is up to its user alone. Elements that a C function takes as constant are not written to at all, not even their cached enclosures.',
  ['schedules', 'programs'], 'all schedules of threads that use different elements and either different fields or a field that is marked immutable',
  'the tests are single threaded; a race on hidden state shows in a tiny fraction of the schedules and mostly goes unnoticed',
  [L + 'src/renf/refine_embedding.c', L + 'src/renf/set_immutable.c', L + 'src/renf_elem/', L + 'srcxx/renf_elem_class.cpp', L + 'srcxx/renf_class.cpp'],
  [('immutable fields', L + 'src/renf/refine_embedding.c'), ('variables with static storage', L + 'srcxx/renf_elem_class.cpp')],
  'effect analysis: classification of all uses of variables with static storage in the type-checked syntax tree, and watched writes to fields and constant elements on all paths of the LLVM IR', 'all functions of both libraries and the header templates as instantiated by clients/; FLINT and the standard library are trusted')

NAPY = 'pyeantic/src/pyeantic/'
p('N01', 'The Python interface agrees with the C++ library',
  'Arithmetic, comparison, conversion, hashing and pickling of fields and elements from Python and SageMath give the same results as the corresponding operations in C++. Conversion between SageMath or realalg fields and fields of this library preserves the embedding and the exact value of elements.',
  ['inputs', 'programs'], 'all fields and elements', 'the doctests need SageMath and sample a handful of fields',
  [NAPY + 'real_embedded_number_field.py', NAPY + 'cppyy_eantic.py', NAPY + 'realalg_conversion.py'], [('conversion', NAPY + 'real_embedded_number_field.py')],
  '', '', claim=False, na='the Python code is dynamically typed glue whose meaning is that of cppyy, SageMath and realalg objects created at run time; none of them is installed, there are no types to analyse, and the precision of the realalg conversion depends on run-time intervals. The C++ functions behind the operators are decided in C12, C13, C17 and C19.')
p('N02', 'Refinement converges, at the speed the precision demands',
  'Refining an embedding to any precision terminates after a number of steps that is logarithmic in the precision once the root is separated well enough, and comparisons take time in proportion to the precision needed to decide them.',
  ['inputs'], 'all fields and precisions', 'tests only show that some refinements end',
  [L + 'src/renf/refine_embedding.c', L + 'src/fmpz_poly_extra/newton_step_arb.c'], [('refinement', L + 'src/renf/refine_embedding.c')],
  '', '', claim=False, na='rates of convergence depend on the values of derivatives near the root; a static argument would need the numerical analysis of the Newton operator. That no round of a loop leaves the state as it was is decided in C09.')
p('N03', 'Hash values of different elements and fields rarely collide',
  'The hashes of unequal elements and fields are spread over the range of hashes, so that containers keyed by them stay efficient.',
  ['inputs'], 'all elements and fields', 'spread is a statistical statement over all inputs',
  [L + 'srcxx/renf_elem_class.cpp', L + 'srcxx/renf_class.cpp'], [('hash', L + 'srcxx/renf_elem_class.cpp')],
  '', '', claim=False, na='the distribution of hash values is a quantitative property of run-time data; only their consistency with equality is decided statically (C17).')
p('N04', 'Random fields and elements for tests are varied and valid',
  'The generators for random fields and elements produce valid objects and reach all kinds of fields, coefficients and embeddings with positive probability.',
  ['inputs', 'histories'], 'all states of the random generator', 'reachability of every kind of output is a statement about distributions',
  [L + 'src/renf/randtest.c', L + 'src/renf_elem/randtest.c'], [('generators', L + 'src/renf/randtest.c')],
  '', '', claim=False, na='distributions, and termination with probability one of the rejection loop for irreducible polynomials, quantify over the state of a random generator. Memory safety of the generators is covered by C10.')
p('N05', 'Defining polynomials are irreducible',
  'Every field that can be constructed is defined by an irreducible polynomial, so that it is a field and division by nonzero elements is possible.',
  ['inputs'], 'all polynomials', 'no test passes reducible polynomials',
  [L + 'src/renf/init.c', L + 'srcxx/renf_class.cpp'], [('construction', L + 'src/renf/init.c')],
  '', '', claim=False, na='the library documents irreducibility as a precondition and never checks it; it is a number theoretic property of run-time data.')
p('N06', 'Estimates of condition numbers bound the loss of precision',
  'The estimated condition number of a polynomial or an element bounds from above the number of bits that its evaluation at the generator loses, so that the precision chosen from it suffices at once.',
  ['inputs'], 'all polynomials and elements', 'a wrong estimate only makes the library slower and is invisible to tests',
  [L + 'src/fmpz_poly_extra/relative_condition_number_2exp.c', L + 'src/renf_elem/relative_condition_number_2exp.c'], [('estimate', L + 'src/fmpz_poly_extra/relative_condition_number_2exp.c')],
  '', '', claim=False, na='the estimate is computed in 32-bit ball arithmetic and is a heuristic; no result depends on it for correctness, which is what C02, C04–C06 and C09 establish without using it.')
p('N07', 'Printed decimal approximations are as accurate as shown',
  'All decimal digits that are printed next to the exact value of an element are digits of its real value up to one unit in the last place.',
  ['inputs'], 'all elements and numbers of digits', 'digits of printed approximations are compared for a few elements only',
  [L + 'src/renf_elem/get_str_pretty.c'], [('printing', L + 'src/renf_elem/get_str_pretty.c')],
  '', '', claim=False, na='digits are produced by the ball printing of FLINT from the ball it is given. That this ball encloses the element is decided (C16, C06); the conversion to decimals is code of FLINT, outside of this repository.')
