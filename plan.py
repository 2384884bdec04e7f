"""Build variants, run configurations and, per property, the configurations of each tier."""
REL=['-O3','-DNDEBUG','-g1']
SAN=['-O1','-g1','-fno-omit-frame-pointer','-fsanitize=address,undefined','-fno-sanitize-recover=all','-fno-sanitize=vptr,nonnull-attribute','-ftrivial-auto-var-init=pattern']
ASAN_ENV={'ASAN_OPTIONS':'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1','UBSAN_OPTIONS':'print_stacktrace=1:halt_on_error=1:exitcode=99'}
COV=['-O1','-g1','-fsanitize-coverage=inline-8bit-counters,trace-cmp']
CONFIGS={
 'variants':{
  # the release build of the project: assembly arithmetic, multiplier selected at load time
  'native':{'cxx':'g++','cc':'gcc','flags':REL,'harness_flags':['-O2','-g1']},
  # portable C++ arithmetic (the code used on targets other than x86-64, e.g. WASM)
  'portable':{'cxx':'g++','cc':'gcc','flags':REL,'harness_flags':['-O2','-g1'],'portable':True},
  # assembly build with every automatic variable pre-filled with a pattern: reads of uninitialised locals become visible
  'pattern':{'cxx':'g++','cc':'gcc','flags':['-O2','-g1','-ftrivial-auto-var-init=pattern'],'harness_flags':['-O2','-g1','-ftrivial-auto-var-init=pattern']},
  'zeroed':{'cxx':'g++','cc':'gcc','flags':['-O2','-g1','-ftrivial-auto-var-init=zero'],'harness_flags':['-O2','-g1','-ftrivial-auto-var-init=zero']},
  # address + undefined-behaviour sanitizers over the portable code, and over the C++ parts of the assembly build
  'asan':{'cxx':'clang++','cc':'clang','flags':SAN,'harness_flags':SAN,'link_flags':['-fsanitize=address,undefined'],'portable':True},
  'asannat':{'cxx':'clang++','cc':'clang','flags':SAN,'harness_flags':SAN,'link_flags':['-fsanitize=address,undefined'],'plain':['arithmetic.cpp']},
  'tsan':{'cxx':'clang++','cc':'clang','flags':['-O1','-g1','-fsanitize=thread'],'harness_flags':['-O1','-g1','-fsanitize=thread'],'link_flags':['-fsanitize=thread'],'portable':True},
  # edge counters and comparison operands recorded: the engine searches by coverage instead of drawing independent cases
  'cov':{'cxx':'clang++','cc':'clang','flags':COV,'harness_flags':COV,'plain':['arithmetic.cpp']},
  'covasan':{'cxx':'clang++','cc':'clang','flags':SAN+COV[2:],'harness_flags':SAN+COV[2:],'link_flags':['-fsanitize=address,undefined'],'plain':['arithmetic.cpp']},
 },
 'configs':{
  'guided':{'variant':'cov'},
  'guidedasan':{'variant':'covasan','env':ASAN_ENV},
  'adx':{'variant':'native'},
  'nobmi2':{'variant':'native','env':{'BLS_DISABLE_BMI2':'1'}},
  'portable':{'variant':'portable'},
  'pattern':{'variant':'pattern'},
  'zeroed':{'variant':'zeroed'},
  'asan':{'variant':'asan','env':ASAN_ENV},
  'asannat':{'variant':'asannat','env':ASAN_ENV},
  'tsan':{'variant':'tsan','env':{'TSAN_OPTIONS':'halt_on_error=1:exitcode=98'}},
 },
 'assumptions':['the reference model in harness/ref.cpp (GMP integers, Fp12 as polynomials, RFC texts) is right; it is validated against published vectors by tools/selftest',
                'generated inputs only: agreement is established on the cases counted here, not proved'],
}
PLAN={
 'P01':{'quick':['adx','nobmi2','portable','guided'],'thorough':['adx','nobmi2','portable','pattern','asan','guided'],
   'rule':'a case is one operation with operands from an edge-biased generator (limb patterns, values next to 0/p/2^k, uniform) and an aliasing pattern; non-trivial when every operand is greater than 1'},
 'P02':{'quick':['adx','portable','guided'],'thorough':['adx','nobmi2','portable','pattern','asan','guided'],
   'rule':'a case is one field element or integer (edge-biased: limb patterns, neighbours of p, p/2, powers of two, squares and forced non-squares, uniform) and one operation; non-trivial when the operand is neither zero nor one (reductions: the integer is at least p)'},
 'P03':{'quick':['adx','portable','guided'],'thorough':['adx','nobmi2','portable','pattern','asan','guided'],
   'rule':'a case is one operation at one level of the tower on elements with edge-biased, sparse, repeated or uniform coefficients; non-trivial when every operand is neither zero nor one'},
 'P04':{'quick':['adx','portable',('guided',0.5)],'thorough':['adx','nobmi2','portable','pattern','asan','guided'],'guided_skip':['frobenius_by_power'],
   'rule':'a case is a field element (for the cyclotomic checks: an element of the cyclotomic subgroup, of order r, of order prime to r or one) with a Frobenius power, an exponent or a membership query; non-trivial when the element is moved by the map (Frobenius) or is not zero or one'},
 'P05':{'quick':['adx','portable',('guided',0.4)],'thorough':['adx','portable','pattern','asan','guided'],
   'rule':'a case is one operation on multi-word integers (1 to 13 words, carry-chain patterns, dividends built backwards from quotient and remainder) or one byte string with its hex forms; non-trivial when the operands exceed one (division: quotient and remainder both non-zero; hex: not empty)'},
 'P06':{'quick':['adx','portable','guided'],'thorough':['adx','nobmi2','portable','pattern','asan','guided'],
   'rule':'a case is one element encoded and decoded in both byte orders and all option combinations (non-trivial: some coefficient other than 0 and 1), or one byte string built from integers at and around p in one chosen slot or in all (always non-trivial; the label counts valid, one-bad-slot and several-bad-slot strings)'},
 'P07':{'quick':['adx','portable','guided'],'thorough':['adx','nobmi2','portable','pattern','asan','guided'],
   'rule':'a case is one pair of curve points (kinds: subgroup, infinity, cofactor order, mixed order, random, special; relations: independent, equal, opposite, double, small-order shift, cube-root image) in chosen projective representations, one point, or one history of up to 25 operations on four registers; non-trivial when no operand is infinity'},
 'P08':{'quick':['adx','portable','guided'],'thorough':['adx','nobmi2','portable','pattern','asan','guided'],'guided_skip':['g1_weighted_sum_huge', 'g2_weighted_sum_huge'],
   'rule':'a case is one point with one scalar of 1 to 8 words, or one weighted sum (list lengths around the window changes at 32, 256 and 2048, unequal lengths, repeats, opposites, infinities, small-order points, scalars piled into one window, a callback that may throw); non-trivial when the point is not infinity and the scalar exceeds one, respectively when the list is not empty and the sum is not infinity'},
 'P09':{'quick':['adx','portable','guided'],'thorough':['adx','nobmi2','portable','pattern','asan','guided'],
   'rule':'a case is one projective triple (curve point, infinity, perturbed coordinate, wrong weights, other curve, random) or one curve point of a chosen kind, including every element of the torsion subgroups of order 3, 121, 169 and 529 with and without a subgroup component; non-trivial when z is not zero, the point is not infinity, respectively the torsion component is not zero'},
 'P10':{'quick':['adx','portable','guided'],'thorough':['adx','nobmi2','portable','pattern','asan','guided'],
   'rule':'a case is one curve point (subgroup, infinity, cofactor order, mixed order, random, special: x=0, y in a subfield, y next to (p-1)/2) in a chosen projective representation, encoded and decoded in every format, order and option, or a pair of points whose bytes are compared; non-trivial when no point is infinity'},
 'P11':{'quick':['adx','portable','guided'],'thorough':['adx','nobmi2','portable','pattern','asan','guided'],
   'rule':'a case is one byte string of an encoding length: valid encodings, coordinates shifted by multiples of p or next to p, flag-bit changes, decorated infinities, bit flips, x without a curve point, off-curve pairs and triples, both byte orders and option settings; non-trivial when the compression flag is set, respectively the coordinates are not those of infinity'},
 'P12':{'quick':['adx','portable','guided'],'thorough':['adx','nobmi2','portable','pattern','asan','guided'],'guided_skip':['message_over_half_a_gigabyte','message_over_two_gigabytes'],
   'rule':'a case is one field element mapped to a curve (edge-biased, exceptional denominators, preimages of chosen x-coordinates, of the isogeny kernel, of y-coordinates with a zero component), one point of an isogenous curve, or one message with a tag (lengths around hash blocks and around 255, messages of 2^28 to 2^32 bytes); non-trivial when the element is not zero, respectively the message is not empty'},
 'P13':{'quick':['adx','asan',('guided',0.5)],'thorough':['adx','portable','pattern','asan','guided'],'guided_skip':['huge_hmac'],
   'rule':'a case is one HMAC, HKDF or expand_message call with key, salt, info, message, tag and output lengths spread around hash blocks and limits, output between guard bytes, heap blocks counted; non-trivial when the inputs are not empty and more than one output block is asked for (out-of-limit requests always)'},
 'P14':{'quick':['adx','asan','guided'],'thorough':['adx','portable','pattern','asan','guided'],
   'rule':'a case is one seed (0 to several thousand bytes, dense around 31, 32 and hash blocks), one parent key with a 32-bit index, one chain of derivations, or one 32-byte key string around 0, r, multiples of r and 2^256; non-trivial when the seed has at least 32 bytes, respectively the key is not zero'},
 'P15':{'quick':['adx','portable','guided'],'thorough':['adx','nobmi2','portable','pattern','asan','guided'],
   'rule':'a case is one key with a path of one to eight 32-bit indexes, derived on the secret and on the public side, the parent in random projective representations; non-trivial when the key exceeds one'},
 'P16':{'quick':['adx','portable','guided'],'thorough':['adx','nobmi2','portable','pattern','asan','guided'],
   'rule':'a case is one pair of subgroup points with known logarithms in chosen projective representations (value against the power of the reference pairing of the generators), one pair evaluated by the reference from the definition, one bilinearity relation, or one field element for the final exponentiation; non-trivial when neither point is infinity, respectively the element is not one'},
 'P17':{'quick':['adx','portable','guided'],'thorough':['adx','nobmi2','portable','pattern','asan','guided'],
   'rule':'a case is one list of pairs (0 to 24, a few up to 300; thorough 400) with known logarithms, repeated, cancelling and infinite members, shuffled, split, with callbacks that may throw; non-trivial when at least two pairs are finite'},
 'P18':{'quick':['adx','portable','guided'],'thorough':['adx','nobmi2','portable','pattern','asan','guided'],
   'rule':'a case is one key with one message (lengths around hash blocks and around powers of two, up to a megabyte or more): signature value, determinism, verification, and verification after a trip through an encoding and a projective representation; non-trivial when the key exceeds one'},
 'P19':{'quick':['adx','portable','guided'],'thorough':['adx','nobmi2','portable','pattern','asan','guided'],
   'rule':'a case is one claim (key, message, signature) derived from a genuine one by a chosen attack: other message, other key, related subgroup points, cofactor components that leave the pairing equation intact, off-curve coordinates, recombinations; non-trivial when the claim is not genuine'},
 'P20':{'quick':['adx','portable',('guided',0.6)],'guided_skip':['public_keys_long','signatures_long'],'thorough':['adx','nobmi2','portable','pattern','asan','guided'],
   'rule':'a case is one list (0 to 40, some to 2049) of keys or points with known logarithms, with repeats, opposites, running-sum collisions, infinities and arbitrary representations, aggregated directly, shuffled, in groups and through accessor and selector forms; non-trivial when the list has at least two members'},
 'P21':{'quick':['adx','portable',('guided',0.6)],'guided_skip':['long_list'],'thorough':['adx','nobmi2','portable','pattern','asan','guided'],
   'rule':'a case is one list of 0 to 24 (some to 513, thorough 1025) key/message pairs with a signature: honest, permuted, or tampered in one of nineteen ways, with and without the duplicate check; the reference decides; non-trivial when the list has at least two pairs, respectively the claim is wrong'},
 'P22':{'quick':['adx','portable','guided'],'guided_skip':['long_list'],'thorough':['adx','nobmi2','portable','pattern','asan','guided'],
   'rule':'a case is one key with its proof, one altered proof or key (fifteen ways), or one list of 1 to 41 (some to 2100, thorough 5000) keys with a signature for fast aggregate verification (honest or altered); non-trivial when the key exceeds one, respectively the claim is false or the list has at least two keys'},
 'P23':{'quick':['adx',('tsan',0.2)],'thorough':['adx','portable','nobmi2',('tsan',1.0)],'sources':['ops.cpp'],
   'siblings':{'adx':['nobmi2','portable','pattern','zeroed']},
   'rule':'a case is one history of calls drawn from about 190 public operations with arguments from small windows of shared pools (so that calls repeat, collide and differ in one argument), run in order and permuted on dirtied memory and compared with the same call in a fresh process; or the same calls in the other implementations; or the same calls from 2 to 8 threads; non-trivial when it has at least two calls'},
 'P24':{'quick':['asan','adx',('asannat',0.2),('guidedasan',0.2)],'thorough':['asan','asannat','adx','portable','guidedasan'],'sources':['ops.cpp'],'guided_skip':['long_inputs'],
   'rule':'a case is a sequence of up to six calls drawn from about 190 public operations with hostile arguments (unreduced field elements, off-curve and random projective triples, infinities, malformed encodings, empty and oversized strings and lists, extreme numbers, throwing callbacks, results of earlier calls), every argument and output ending or beginning at an inaccessible page or in a heap block of its exact size; each call is executed three times and heap blocks are counted; non-trivial when at least one call was made'},
 'P25':{'quick':['adx','pattern'],'thorough':['adx','portable','pattern','zeroed'],'sources':['ops.cpp'],
   'technique':'property-based fault injection: generated calls and histories with failing memory allocations, judged against the same call without failures',
   'rule':'a case is one call (drawn from about 190 public operations, arguments from shared pools) executed once for each of its allocations with that allocation failing, alone or with all later ones, or one history of up to six calls with failures scattered over it (chosen positions, everything after a position, large requests, random subsets), each in a process of its own; non-trivial when the call makes an allocation, respectively when some call of the history that allocates has failures scheduled'},
 'P26':{'quick':['adx','portable',('asannat',0.25)],'thorough':['adx','nobmi2','portable','pattern','asannat'],'sources':['ops.cpp'],
   'technique':'property-based testing over the life of a process: generated calls executed before, in and after main, judged against the same calls made ordinarily',
   'rule':'a case is a list of one to six calls (drawn from about 190 public operations, arguments from shared pools) executed in a new process inside a static initialiser that precedes those of the library, in main, in a thread, in the destructor of a thread-local object and during exit after the static destructors of the library; every case is non-trivial'},
 'P27':{'quick':['adx',('portable',0.4),('guided',0.3)],'thorough':['adx','portable','pattern','asannat','guided'],
   'technique':'property-based testing with generated interruption points and timing invariants, judged against the reference model',
   'rule':'a case is one weighted sum (256 to 34768 points) or multi-pairing (20 to 60 pairs, thorough 300) whose callbacks are timed, counted, made to throw (four kinds of exception, first, last or any callback), made to enter another such operation, or aborted in two threads at once; every case is non-trivial'},
 'P28':{'quick':['adx','asan','guided'],'thorough':['adx','portable','pattern','asan','guided'],
   'rule':'a case is three values with arbitrary limbs (often differing in one limb by one) compared in all ways, a history of up to 60 insertions, lookups and removals on a set and a map against the same on byte strings, or one value copied in every way; non-trivial when the values differ, respectively when a key repeats'},
 'P29':{'quick':['adx','portable'],'thorough':['adx','nobmi2','portable','pattern'],'sources':['ops.cpp'],
   'technique':'property-based testing in generated surroundings: calls in altered process states with the state compared before and after and every system call intercepted, and calls interrupted at generated instructions, judged against the same calls made ordinarily',
   'rule':'a case is a list of one to four calls (drawn from about 190 public operations, arguments from shared pools) made in a process whose floating-point modes, locales, environment, descriptors, signals or exceptions in flight were altered in a generated way, or one of about 90 computations interrupted at a generated machine instruction by a handler that makes another; every case of the first kind is non-trivial, one of the second when the handler ran'},
}
