#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Bit strings behave as mathematical bit sequences for every length and content",
 "Every bit-string operation (creation, copying, conversion from and to hex, binary, raw bytes, integers and bit vectors, concatenation, and, or, not, reversal, shifts, rotations, lengthening, shortening, comparison) yields exactly the bit sequence, sign and length that the operation denotes on mathematical bit sequences, whatever the length and content of its operands. No operation reads or writes outside the storage of its operands and results, operations documented to return a new value leave their operands unchanged, and bits beyond the stated length never influence a result.",
 ["inputs"],"every bit string of every length (0, non multiples of 8, long ones), every sign, every shift/rotation amount within the documented domain",
 "The unit tests try a few dozen fixed strings; lengths that are not a multiple of 8, wrap-around amounts, equal prefixes with different tails and aliasing are sampled at most once each.",
 ["src/util/bits.c","src/util/bits.h","src/util/memory.c"],
 [("bits_t representation (MSB first, BYTE_LEN(bitlen) bytes)","src/misc/types.h"),("GET_BIT / SET_BIT macros and per-operation loops","src/util/bits.c")],
 ["the bits_* functions' results; seeds printed in the JSON output and seeds hashed by the seeded procedures"])

p("C02","The hash used by the seeded procedures is SHA-1 for every message",
 "For every byte string the hash computed by the bundled hash code equals the SHA-1 digest defined by FIPS 180, however the message is split over successive update calls. Hashing a bit string hashes exactly its bytes, and neither the message nor memory outside the context and the 20 byte digest is modified.",
 ["inputs","histories"],"every message of every length (in particular around the 55/56/63/64/119 byte padding edges) and every way of splitting it into updates",
 "Tests hash a handful of fixed seeds; padding boundaries, multi-block messages and split updates are not reached.",
 ["lib/sha1/sha1.c","lib/sha1/sha1.h","src/util/bits.c"],
 [("block transform, 80 rounds","lib/sha1/sha1.c SHA1_Transform"),("buffering of partial blocks","lib/sha1/sha1.c SHA1_Update"),("padding and length","lib/sha1/sha1.c SHA1_Final")])

p("C03","A generated curve passed every stage and every validator, in order",
 "When the staged generation engine reports success, every stage in the requested range was executed, the last execution of each stage returned success, came after the last execution of all earlier stages, and was followed by all of that stage's validators accepting, in their order. A stage result or validator verdict that asks to go back makes generation resume exactly that many stages earlier (never before the first requested stage) after undoing the stages being left, a fatal result aborts with failure, and with a retry limit a stage that failed that many times in a row since its last success aborts with failure.",
 ["inputs","histories","configurations"],"every setup of generators, validators and unrolls, every sequence of verdicts they return, every start/end stage and retry limit, every number of backtracks",
 "Tests run a few fixed generator chains; the property quantifies over unbounded verdict histories.",
 ["src/exhaustive/exhaustive.c"],
 [("state loop, backtracking, unrolling, retry counting","src/exhaustive/exhaustive.c exhaustive_gen_retry"),("full run","src/exhaustive/exhaustive.c exhaustive_gen")],
 ["return value of the engine and the sequence of stage/validator/unroll calls"])

p("C04","Each option selects the documented procedure, stage by stage",
 "For every accepted combination of options the procedure installed for every generation stage (seed, field, coefficients, curve, order, subgroups, points, metadata), the validators and the arguments handed to them are those the options document: prime, cofactor, smooth, Koblitz, unique, twist, seeded algorithms, family, point selection, metadata and hex check each reach the stage that implements them. A requested search constraint that the selected method does not consult is reported to the user as unused rather than silently dropped.",
 ["configurations"],"every value of every option in the configuration, in every combination (field kind, method, seed algorithm, family, prime/cofactor/smooth/koblitz/unique/hex/points/metadata/random)",
 "The combinations are in the tens of thousands; tests exercise about ten command lines.",
 ["src/exhaustive/exhaustive.c","src/misc/config.c","src/misc/config.h","src/cm/cm.c","src/invalid/invalid.c"],
 [("stage tables","src/exhaustive/exhaustive.c exhaustive_ginit/exhaustive_cinit/exhaustive_ainit/exhaustive_uinit"),("used/set bookkeeping","src/misc/config.c config_report_unused"),("CM and invalid tables","src/cm/cm.c, src/invalid/invalid.c")])

p("C05","Reported curve orders are exact and satisfy the requested constraint",
 "Whenever order generation succeeds the recorded order is the exact number of points of the generated curve (the value supplied by the user in case of explicit input), and the curve object carries that same order. With a prime constraint the order is prime, with a cofactor k it is k times a prime, with a smoothness bound B every prime factor has at most B bits; a curve failing the constraint is rejected so that another is tried.",
 ["inputs"],"every curve over every prime or binary field, every cofactor and smoothness bound",
 "Tests check a few fixed 19-bit curves; the set of curves and bounds is unbounded.",
 ["src/gen/order.c","src/math/koblitz.c"],
 [("order generators","src/gen/order.c order_gen_*"),("Koblitz order shortcut","src/math/koblitz.c koblitz_get_order")],
 ["order field of the JSON output, return value of the order stage"])

p("C06","Subgroup generators carry their exact order and cofactor",
 "Whenever subgroup generation succeeds, every generator lies on the curve, its stated order is its exact order, and stated order times stated cofactor equals the curve order. All generators of the group structure are reported; with the uniqueness constraint there is exactly one, of full order; with a cofactor k the first generator has order equal to the curve order divided by k and cofactor k, and a curve without such a generator is rejected.",
 ["inputs"],"every curve (cyclic or not), every cofactor",
 "Tests check two or three fixed curves with one or two generators.",
 ["src/gen/gens.c"],
 [("generators","src/gen/gens.c gens_gen_any/gens_gen_one/gens_gen_cofactor"),("anomalous/embedding checks","src/gen/gens.c gens_check_*")],
 ["subgroups[] of the JSON output"])

p("C07","Reported points have their stated order and the point sets are complete",
 "Every point reported for a subgroup is a point of that subgroup with exactly the stated order. For each subgroup, 'prime' reports one point for every distinct prime dividing the generator's order, 'all' one for every divisor greater than one (every order of a proper or full cyclic subgroup), 'non-prime' one for every composite divisor, 'random' as many as requested over all subgroups and never the point at infinity, and a requested prime order reports a point in every subgroup whose order it divides and nothing else.",
 ["inputs"],"every generator order (any factorisation, repeated factors, prime orders, order 2), every requested amount and prime list, any number of subgroups",
 "Tests look at a few orders with two or three factors.",
 ["src/gen/point.c","src/math/subgroup.c"],
 [("divisor enumeration over bit masks","src/math/subgroup.c subgroups_2n_factors"),("points from orders","src/gen/point.c points_from_orders, points_gen_*")],
 ["subgroups[].points of the JSON output"])

p("C08","Seeded X9.62 curves are the ones the seed prescribes",
 "For every seed of at least 160 bits and every field size, the value derived from the seed is exactly that of the ANSI X9.62 procedure: the rightmost bits of SHA-1(seed) with the top bit cleared for prime fields, followed by SHA-1(seed+i mod 2^g) for each further block. Over a prime field the curve then satisfies r*b^2 = a^3, over a binary field b is the derived value and is nonzero; too short or non-hexadecimal seeds given interactively are rejected. (A seed whose last byte is incomplete is hashed with that byte filled up with zero bits.).",
 ["inputs"],"every seed value and length, every field size in bits",
 "Tests use two or three published vectors; seeds with leading zeros, wrap-around of seed+i and other block counts are not sampled.",
 ["src/exhaustive/ansi.c","src/util/bits.c"],
 [("seed expansion","src/exhaustive/ansi.c seed_process"),("coefficients","src/exhaustive/ansi.c ansi_gen_equation_fp/ansi_gen_equation_f2m")])

p("C09","Seeded Brainpool fields, coefficients and generators follow the seed procedure",
 "Starting from a 160-bit seed, the prime field is the first prime congruent 3 mod 4 above a derived candidate, if it has the requested size, the coefficients are the first derived pair meeting the Brainpool (resp. RFC 5639) conditions, and the generator is the derived multiple of a point of smallest x coordinate, with the seed advanced by one modulo 2^160 between successive derivations. Every derivation hashes the current 160-bit seed and its successors, keeps exactly the requested number of leading-block bits, and order and generator checks accept exactly the curves the procedure allows.",
 ["inputs","histories"],"every seed (including those with leading zero bits and wrap-around at 2^160), every field size, every number of rejected candidates",
 "Tests use the published seeds only.",
 ["src/exhaustive/brainpool.c","src/exhaustive/brainpool_rfc.c"],
 [("seed update","src/exhaustive/brainpool.c brainpool_update_seed"),("hash derivation","src/exhaustive/brainpool.c brainpool_hash"),("field/equation/generator search","src/exhaustive/brainpool.c, src/exhaustive/brainpool_rfc.c")])

p("C10","NUMS curves use the prescribed prime, coefficients, order checks and base point",
 "For every field size n the NUMS field is the largest prime of the form 2^n - c with c congruent 1 mod 4, a = -3, and b starts at 1 for each new curve and then takes successive integers (skipping 2) each time it is rejected. A curve is accepted only if both its order and the order of its twist are prime, and the generator is the point with the smallest positive x coordinate for which a point exists and the smaller of the two y coordinates, with its exact order and cofactor.",
 ["inputs","histories"],"every field size, every number of rejected b values, any sequence of curves in one run",
 "Tests run one or two sizes.",
 ["src/exhaustive/nums.c"],
 [("nums_gen_*","src/exhaustive/nums.c")])

p("C11","Every binary field polynomial offered for a size is irreducible of that degree",
 "For every extension degree the program claims to support without explicit input, the polynomial it supplies has exactly that degree, is a trinomial or pentanomial with constant term one, and is irreducible over GF(2); the lookup returns the entry of the requested degree and no other, and reports as unavailable exactly the degrees it has no entry for. The field element built from an entry is a generator of the extension defined by precisely that polynomial.",
 ["inputs"],"every degree from 0 to the largest supported one, every table entry",
 "The table has thousands of hand-pasted entries; tests look at a few.",
 ["src/math/poly.c","src/math/poly.h","src/gen/field.c"],
 [("table and binary search","src/math/poly.c poly_find/poly_exists"),("conversion","src/math/poly.c poly_find_gen/poly_gen")])

p("C12","Tabulated Koblitz orders are the true orders and apply only to binary curves",
 "For every tabulated pair (m, a) the order used equals the number of points of y^2+xy=x^3+ax^2+1 over GF(2^m), the lookup finds exactly the pairs tabulated, and for pairs that are not tabulated the order is computed. The tabulated value is used only for the binary curve it belongs to.",
 ["inputs"],"every (m, a), tabulated or not, and every field kind",
 "Tests touch a few entries; the orders are hand-pasted hexadecimal strings.",
 ["src/math/koblitz.c","src/gen/order.c"],
 [("table and bsearch","src/math/koblitz.c koblitz_find/koblitz_get_order"),("use","src/gen/order.c order_gen_koblitz")])

p("C13","Only valid base fields and coefficients of the requested kind are accepted",
 "A field obtained by random generation or from user input is a prime field of a prime (of exactly the requested bit size when random, at most that when given) or a binary extension field of exactly the requested degree defined by an irreducible trinomial or pentanomial; anything else entered is rejected and asked again, and end of input aborts. Coefficients read or drawn are elements of that field equal to the (non-negative) number entered, and field parameters reported are exactly the modulus or the exponents of the modulus polynomial.",
 ["inputs"],"every user entry (non prime, too large, negative, reducible polynomials, exponents larger than the degree) and every size",
 "Tests feed two or three entries.",
 ["src/gen/field.c","src/gen/equation.c","src/io/input.c","src/util/random.c"],
 [("field_gen_random, field_gen_input","src/gen/field.c"),("a_gen_*, b_gen_*","src/gen/equation.c"),("input_int/input_prime/input_short","src/io/input.c")])

p("C14","Field elements and integers convert back and forth without loss",
 "Converting a field element to the integer that is printed and back with the same field yields the same element, for prime fields and binary fields alike: the integer is the residue, or the number whose binary digits are the element's polynomial coefficients, most significant first.",
 ["inputs"],"every element of every prime or binary field",
 "Tests convert a few elements.",
 ["src/gen/field.c"],
 [("field_elementi / field_ielement","src/gen/field.c")])

p("C15","Output is one well-formed JSON array holding exactly the generated values",
 "Every run that reports curves writes one well-formed JSON array: begin, the curves separated by exactly one separator between consecutive ones and none after the last, end, also when generation fails part way. Each curve object carries exactly the curve's own field parameters, coefficients, order, seed if any, and for every subgroup its generator coordinates, order, cofactor and points, each printed from the corresponding value.",
 ["inputs","histories","configurations"],"every number of curves requested, every point of failure, any number of subgroups and points",
 "Tests parse the output of a few successful small runs.",
 ["src/io/output.c","src/exhaustive/exhaustive.c","src/invalid/invalid.c"],
 [("framing","src/exhaustive/exhaustive.c exhaustive_generate, src/invalid/invalid.c"),("document","src/io/output.c output_jjson/output_json_point")])

p("C16","The hex filter accepts exactly the curves whose parameters contain the string",
 "With a hex filter a curve is accepted if and only if the lower-cased search string occurs in the hexadecimal form of at least one of its printed parameters (seed, prime, coefficients, order, generator coordinates, point coordinates); otherwise generation goes back to draw a new field onwards. The filter never modifies the curve and reads only memory it owns.",
 ["inputs"],"every curve, any number of subgroups and points, every search string",
 "Tests check one string on a fixed curve.",
 ["src/gen/hex.c","src/util/str.c"],
 [("hex_check_param","src/gen/hex.c")])

p("C17","Only consistent command lines are accepted and they mean what they say",
 "Sizes with the suffixes k, m, g (thousands, millions, 10^9) and durations with the suffixes s, m, h, d parse to the exact number of bytes or seconds; values that do not start with a number are rejected. Contradictory or incomplete option combinations (both or neither field kind, more than one of prime, cofactor and smooth, conflicting methods or seed procedures, malformed seeds, prime-field methods over a binary field, missing or non-numeric bit sizes) end with a usage error before any generation starts, and accepted options are stored in the configuration unchanged.",
 ["inputs","configurations"],"every argument string and every subset of options in every order",
 "Tests run about twenty command lines.",
 ["src/io/cli.c"],
 [("cli_parse","src/io/cli.c"),("cli_end consistency checks","src/io/cli.c"),("cli_parse_memory, cli_parse_time","src/io/cli.c")])

p("C18","Copies of curves, subgroups and points are complete and independent",
 "Copying or cloning a curve, subgroup or point yields an object whose every reported value (seed, field, coefficients, curve, order, generators, points, metadata) equals the original's, sharing no mutable storage with it, for any number of subgroups and points. Releasing an object releases exactly the storage it owns, each block once, and leaves a null handle.",
 ["inputs"],"every object shape: missing members, any number of generators and points",
 "Tests copy one or two objects with a single member.",
 ["src/obj/curve.c","src/obj/point.c","src/obj/subgroup.c","src/obj/obj.h"],
 [("copy/clone/free","src/obj/*.c, src/obj/obj.h")])

p("C19","Invalid-curve generation covers every requested prime exactly once",
 "The primes an invalid-curve run works on are exactly the consecutive primes of the requested range, or by default the consecutive primes from 2 whose product exceeds the square of the curve order. A single-threaded run then outputs, for every one of those primes, one curve that shares field and a with the original and whose order that prime divides, with a point of exactly that order.",
 ["inputs","histories"],"every curve order, every prime range, every sequence of random candidate curves",
 "Tests run one or two tiny ranges.",
 ["src/invalid/invalid.c"],
 [("invalid_primes","src/invalid/invalid.c"),("invalid_curves_single","src/invalid/invalid.c")])

p("C20","String and memory helpers are exact and stay inside their buffers",
 "Joining strings yields the given strings in order with the separator between consecutive ones, counting occurrences counts every one, and hex recognition accepts exactly strings of hex digits with an optional 0x prefix, for any number and length of strings. No helper reads or writes outside its buffers and duplicated memory equals the original.",
 ["inputs"],"every number of strings (0, 1, many), every content and length",
 "Tests join two to four short strings.",
 ["src/util/str.c","src/util/memory.c"],
 [("str_join/str_joinv/str_is_hex/str_cnt","src/util/str.c"),("try_memdup/try_strdup","src/util/memory.c")])

p("C21","Twisted curves record the twist's own coefficients, field and order",
 "After replacing a curve by its quadratic twist the recorded curve, field and coefficients are those of the twist, and if the original's order was known the recorded order is the twist's exact order, 2q+2 minus the original one, for prime and binary fields. Subgroups and seed of the untwisted curve do not survive the replacement, and no order of an earlier rejected candidate is ever attributed to the new curve.",
 ["inputs","histories"],"every curve over every field, with or without a known order, after any number of rejected candidates",
 "Tests twist one or two curves once.",
 ["src/math/twists.c","src/gen/curve.c"],
 [("twist_rand_to","src/math/twists.c"),("curve_gen_any_twist","src/gen/curve.c")])

p("C22","Reported metadata equals the curve's invariants",
 "With metadata requested, the reported j-invariant and discriminant are the curve's, the trace is q+1 minus the order, and over prime fields the embedding degree is the multiplicative order of q modulo the curve order (0 when equal), and fundamental discriminant D and conductor f satisfy t^2-4q = D*f^2.",
 ["inputs"],"every curve over every field",
 "Tests print metadata for a couple of curves.",
 ["src/gen/metadata.c","src/gen/gens.c"],
 [("metadata_gen","src/gen/metadata.c"),("gens_get_embedding","src/gen/gens.c")])

p("C23","Special-method curves have the order their method promises",
 "A curve produced by the anomalous, supersingular, family or complex-multiplication method has, respectively, as many points as its field has elements, trace zero, the field given by the family polynomial and an order divisible by the family's prime, or exactly the order requested by the user; candidates failing this are rejected.",
 ["inputs"],"every field size, seed and requested order",
 "Tests run one small size per method.",
 ["src/cm/anomalous.c","src/cm/supersingular.c","src/cm/cm.c","src/cm/cm_prime.c","src/cm/cm_any.c","src/exhaustive/family.c"],
 [("anomalous/supersingular equations","src/cm/anomalous.c, src/cm/supersingular.c"),("family formulas","src/exhaustive/family.c"),("CM curve selection","src/cm/cm.c")])

p("C24","Multi-threaded invalid-curve generation gives what a sequential run gives",
 "With any number of threads an invalid-curve run outputs exactly one curve for every requested prime, terminates, and never mixes values of curves generated by different threads.",
 ["schedules"],"every interleaving of the worker threads",
 "Tests run one schedule.",
 ["src/invalid/invalid.c","src/invalid/invalid_thread.c"],
 [("shared state under a mutex and condition variable","src/invalid/invalid_thread.c")])

p("C25","A stage that exceeds its time limit is abandoned and the search goes on",
 "With a timeout configured, a generation stage that runs longer than the limit is interrupted at any point of its execution, generation restarts from the first stage, and no result of the interrupted execution is ever reported.",
 ["crash_points","schedules"],"every moment at which the timer may fire",
 "Tests do not let the timer fire at chosen points.",
 ["src/util/timeout.c","src/exhaustive/exhaustive.c"],
 [("sigsetjmp/SIGALRM","src/util/timeout.h, src/util/timeout.c")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
