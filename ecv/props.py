"""What decides which property: units (proved), ground obligations (complete evaluation), harness (bounded stand-ins and
replay on the real code: harness/<name>.c, or <module>:<function>)."""
PROPS = {}


def ground(mod, fn):
    def g(m, ck):
        import importlib
        return getattr(importlib.import_module("ecv.units." + mod), fn)(m, ck)
    g.__name__ = fn
    return g


def prop(pid, note, **kw):
    PROPS[pid] = dict(note=note, **kw)


prop("C01", "All bit-string functions listed in the evidence are proved for every length and content; conversions from and to integers, hex text, "
     "bit vectors and variadic concatenation are bounded stand-ins.", units=["bits"], harness=["c01"])
prop("C05", "Constraint filters of the order stage are proved; exactness rests on the assumed contract of PARI's point counting, cross-checked by bounded runs.",
     units=["order"], harness=["cli:c05_order"])
prop("C04", "The setup of both generation methods (exhaustive_do, cm_do and everything they call) is proved for every configuration command line processing can "
     "leave; the requested order given as a product of factors is proved up to the arithmetic of the product.", units=["methods"], harness=["c04"],
     assumptions=["the configuration object holds a combination cli_end accepts (C17)", "try_strdup copies its argument (C20)"])
prop("C11", "Lookup, comparator and construction of the field element are proved; degrees, weights and sortedness of all table entries by complete evaluation "
     "of the tables in the current source; irreducibility by complete evaluation in the harness.", units=["tables"], ground=[ground("tables", "ground_c11")], harness=["c11"])
prop("C12", "Lookup, comparator and the order stage are proved; every tabulated order is compared with the point count recurrence (complete evaluation over the table).",
     units=["tables"], ground=[ground("tables", "ground_c12")], harness=["c12"])
prop("C17", "Every option key of cli_parse, the final consistency check cli_end and the size / duration parsers are proved for every configuration and argument "
     "text; the lists of --random and the characters of --hex-check are bounded stand-ins (tokenising loops).", units=["cli"], harness=["c17"],
     assumptions=["argp_failure with a nonzero status and argp_usage end the program", "sizes times suffix are taken modulo 2^64 (machine arithmetic)"])
prop("C21", "The random-twist generator, the general curve generators and the nonzero check are proved: the twisted curve, its order and its field are those of the "
     "quadratic twist of the curve drawn.", units=["twist"], harness=["docs:c21_twist"],
     assumptions=["seed_free, subgroups_free_deep handle NULL (C18)"])
prop("C22", "The metadata generator and the embedding degree computation are proved against PARI's invariants of the curve object.", units=["twist"], harness=["docs:c22_meta"])
prop("C23", "The anomalous, supersingular, family and complex multiplication generators are proved up to the class-polynomial theory assumed of PARI (polclass, Buchall, "
     "cornacchia2).", units=["special"], harness=["docs:c23_special"])
prop("C18", "Copy, clone and release of points, subgroups, curves and seeds are proved for any number of elements; releasing is a ghost count of every released block.",
     units=["objects"], harness=["c18"], assumptions=["objects own distinct components", "gcopy, gclone return independent equal objects"])

prop("C13", "Reading and drawing of fields and of the coefficients is proved: a prime field only from a prime of the requested size, a binary field only from an irreducible "
     "polynomial of the requested degree, coefficients are the elements the numbers stand for; --a-once style repetition and field_params are bounded stand-ins.",
     units=["fields"], harness=["fields:c13_fields"])
prop("C14", "Both conversions and their inverse relation are proved against the assumed contracts of PARI's digits, fromdigits, gtopoly, gtovec, lift.", units=["fields"], harness=["c14"])
prop("C20", "Joining, counting, hex recognition and the allocation helpers are proved for any number and length of strings (total length below 2^31); the variadic front end "
     "str_joinv is a bounded stand-in.", units=["strings"], harness=["c20"], assumptions=["the default allocators of memory.c are PARI's (set_mem_funcs is not called by the program)"])

prop("C06", "The three generator stages are proved against PARI's group structure (assumed contracts of ellff_get_gens, ellorder, ellmul): every generator reported with its "
     "exact order and cofactor, uniqueness accepted exactly for cyclic groups, and the cofactor stage accepts exactly as stated.",
     units=["groups"], harness=["cli:c06_gens"], assumptions=["the order recorded before is the curve's (C05) and the requested cofactor divides it (C05: order_gen_cofactor)"])
prop("C07", "The stages for prime, all and composite orders, the construction of the points and the single random point are proved; the enumeration of divisors "
     "(subgroups_all, subgroups_nonprime), the random point lists and the trial stage are bounded stand-ins.", units=["groups"], harness=["cli:c07_points"],
     assumptions=["the generators carry their exact orders (C06)", "subgroups of a curve are different objects (C18)"])

prop("C03", "The staged engine exhaustive_gen_retry is proved for every stage function, validator, undo function, range and retry limit (opaque functions, ghost monitor), with the "
     "stage timer off; with the timer on the control flow is that of an asynchronous jump (C25).", units=["engine"], harness=["c03"],
     assumptions=["a stage returns at most 1 and an undo function returns -1 (each stage function is proved separately)", "stages and validators leave the setup structure and the configuration unchanged"])
prop("C15", "The members of the JSON object of a curve and of a point, the lists of generators and points, and the order in which the array is opened, filled and closed are "
     "proved for any number of curves, generators and points; the serialisation itself (parson, stdio) and the seed text are bounded stand-ins.",
     units=["output"], harness=["docs:c15_objects", "docs:c15_runs"], assumptions=["parson keeps members and array elements as they were added and prints them as valid JSON"])
prop("C10", "All five NUMS stages are proved for every field size and every history of the remembered coefficient, against the assumed contracts of isprime, ellsea, "
     "ellordinate and ellorder.", units=["nums"], harness=["cli:c10_nums"],
     assumptions=["ellordinate lists two ordinates or none (a curve of odd prime order has no point of order two)", "a prime of the form 2^n - c, c = 1 mod 4 exists (otherwise the search does not end)"])
prop("C16", "The filter, the texts of points and of lists of points are proved for every curve, argument and stage: accepted exactly if one of the texts contains the lower-cased "
     "string; what printf, strstr and str_joinv do with texts is assumed / a bounded stand-in.", units=["hexf"], harness=["c16", "docs:c16_runs"],
     assumptions=["PARI's %P#x and bits_to_hex print lower-case digits"])
