#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script because the lines are long)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

REG = ["internal/reg/reg.go", "internal/reg/config.go", "internal/reg/status.go", "internal/reg/static.go",
       "internal/reg/irq.go", "internal/reg/mask.go", "internal/reg/proc.go", "internal/reg/stream.go"]

prop("C01", "Register bits are never shared and never leave the block",
     "In every compiled bus, within one block, no bit of any register belongs to two different functionalities, array items, procedure parameters or returns, and every register used lies inside the block's own size. "
     "Register 0 of the main bus holds nothing but the bus ID, and no call, exit, strobe or clear address of one functionality falls on a register used by an unrelated procedure or stream.",
     ["programs"], "all valid descriptions: every mix, order, count, width (below and above the bus width), array shape, atomicity and irq property, for every bus width",
     "The golden tests compile about a hundred fixed descriptions, almost all with one or two functionalities per block; overlap needs particular combinations of widths, orders and left-over gaps.",
     REG + ["internal/gap/pool.go", "pkg/fbdl/types/access.go"],
     [("address counter threaded through the registerification passes", "internal/reg/reg.go regFunctionalities"),
      ("gap pool hands every left-over bit range out at most once", "internal/gap/pool.go"),
      ("register 0 reserved for the ID", "internal/reg/reg.go Registerify")],
     ["compiled JSON: Access of every functionality"],
     [("gap pool", "left-over bit ranges of already used registers", "internal/gap/pool.go")])

prop("C02", "Access descriptors describe exactly the declared bits, consistently",
     "Every access descriptor the compiler produces locates exactly item count times item width bits at the declared start, in the number of registers it states, and all its redundant fields (end address, end bit, occupied width of first and last register, register width) agree with that placement. "
     "The descriptor kind is the one whose documented layout the bits follow.",
     ["inputs", "programs"], "all item counts, widths, start bits, start addresses and bus widths, directly through the public constructors and through whole compiled descriptions",
     "The unit tests tabulate three or four hand-computed descriptors per constructor at bus width 32 only; the redundant fields are derived by separate arithmetic for each kind.",
     ["pkg/fbdl/types/access.go", "internal/reg/config.go", "internal/reg/status.go", "internal/reg/static.go", "internal/reg/proc.go", "internal/reg/stream.go"],
     [("Make*Access constructors", "pkg/fbdl/types/access.go"), ("choice of descriptor kind", "internal/reg/*.go")],
     ["public Go API types.Make*Access", "compiled JSON: Access"])

prop("C03", "Block address spaces nest without overlap and have the stated sizes",
     "In every compiled bus the address space of each block lies inside that of its parent, clear of the parent's own registers and of all sibling blocks, for every array item, and its length is item count times aligned size. "
     "Own, cumulated and aligned sizes follow from the contents: own covers all registers used, cumulated is the sum over the subtree with multiplicity, and the aligned size is large enough and is a power of two (zero for a block without registers), or a multiple of the requested alignment; without an explicit alignment every block starts at a multiple of its own aligned size.",
     ["programs"], "all trees of blocks: any depth, fan-out, array counts, names, own contents and power-of-two alignments",
     "The block golden tests are a handful of fixed trees of at most two levels; wrong placement depends on relations between the sizes and names of siblings and on array counts.",
     ["internal/reg/assign.go", "internal/reg/reg.go", "internal/util/util.go", "pkg/fbdl/types/range.go"],
     [("size accumulation and alignment", "internal/reg/reg.go regBlock, alignBlockSize"), ("top-down address assignment in size order", "internal/reg/assign.go")],
     ["compiled JSON: Sizes, AddrSpace"])

prop("C04", "Accesses with side effects are isolated from other functionalities",
     "A register that must be written to set one functionality never carries another writable functionality: registers of configs and masks hold no other config, mask, irq, parameter or return, an explicitly cleared irq never has its clear write land on a register of a config, mask or another irq, and registers of procedures and streams are used by nothing else. "
     "An atomic functionality not wider than the bus occupies exactly one register per item, and an irq that is cleared on read shares its register only with its own enable bit.",
     ["programs"], "all valid descriptions mixing writable, read-only, atomic and side-effect functionalities in one block, for every bus width",
     "Sharing only happens through left-over gaps, so it depends on the exact widths and on the order in which several functionalities are placed; golden tests contain at most three kinds together.",
     REG + ["internal/gap/pool.go"],
     [("write-safe marking of gaps", "internal/gap/pool.go GetSingle; internal/reg/*.go"), ("placement order configs, masks, statics, statuses, irqs", "internal/reg/reg.go regFunctionalities")],
     ["compiled JSON: Access, ClearAddr, EnableAccess, CallAddr, ExitAddr, StbAddr"])

prop("C05", "Procedure and stream frames are packed in order with correct trigger addresses",
     "Parameters followed by returns of a procedure (or the elements of a stream) occupy one contiguous bit run in declaration order starting at bit 0 of a fresh register. "
     "The call address is the register where the last parameter ends, the exit address the register where the last return ends, and the stream strobe address the register where the last element ends; a procedure without parameters or without returns has a call or exit address exactly when its emptiness or delay requires one. ",
     ["programs"], "all parameter and return lists: counts, scalar or array, any widths and bus widths, with and without delay",
     "Golden tests hold fixed lists of one to four 32-bit-bus elements; off-by-one packing errors need widths that end exactly on or straddle register boundaries.",
     ["internal/reg/proc.go", "internal/reg/stream.go", "pkg/fbdl/types/access.go", "pkg/fbdl/fn/proc.go", "pkg/fbdl/fn/stream.go"],
     [("base bit and address carried between elements", "internal/reg/proc.go regProc; internal/reg/stream.go")],
     ["compiled JSON: Procs, Streams", "public Go API of procedures and streams"])

prop("C06", "The compiled bus contains exactly what was described",
     "For every valid description the compiled result contains each described functionality exactly once, at its place in the hierarchy and under its name, with the declared array size, width, documentation and property values, the documented default for every property not set, and the declared constants; nothing else is added except the ID and, on request, the timestamp. ",
     ["programs"], "all valid descriptions over every functionality kind, property, nesting and constant type",
     "The golden tests pin a fixed output for about a hundred descriptions; a property lost or a default changed only for one combination of kind, property and inheritance is invisible to them.",
     ["internal/ins/block.go", "internal/ins/config.go", "internal/ins/irq.go", "internal/ins/mask.go", "internal/ins/param.go", "internal/ins/return.go", "internal/ins/proc.go",
      "internal/ins/static.go", "internal/ins/status.go", "internal/ins/stream.go", "internal/ins/group.go", "internal/ins/blackbox.go", "internal/ins/common.go", "internal/util/constContainer/constContainer.go"],
     [("one instantiation routine per kind, applying properties then defaults", "internal/ins/*.go"), ("body building", "internal/ast/body.go, internal/prs/body.go")],
     ["compiled JSON"])

prop("C07", "Types, arguments and inheritance mean the same as writing it inline",
     "A description that uses type definitions (with positional, named or default arguments, through any chain of derived types, instantiated any number of times) compiles to the same bus, including layout and ID, as the description in which every type is expanded by hand. "
     "Instantiating a type never changes what a later instantiation of it yields.",
     ["programs", "histories"], "all type chains, parameter lists, argument styles, nesting of parametrised blocks and repeated instantiations",
     "The tests use each type once or twice with one argument style; leaking argument values needs several instantiations with different arguments in a particular order.",
     ["internal/ins/args.go", "internal/ins/type_chain.go", "internal/ins/ins.go", "internal/prs/type.go", "internal/prs/inst.go", "internal/prs/arg.go", "internal/prs/param.go"],
     [("argument binding", "internal/ins/args.go resolveArgs"), ("binding arguments while walking the type chain", "internal/ins/type_chain.go"), ("type resolution", "internal/ins/ins.go resolveToBaseType")],
     ["compiled JSON"])

prop("C08", "Expressions evaluate to their mathematical value",
     "Every expression over literals, constants, the arithmetic and shift operators, parentheses, lists, ranges, time and the built-in functions evaluates to the value of a straightforward exact evaluator that honours the language's precedence and left associativity, whatever the spacing. "
     "An expression without a defined value (wrong operand type, division by zero, negative shift, out of range) is reported as an error and never yields a made-up value.",
     ["programs", "inputs"], "all expression trees and all concrete spellings of them",
     "About ten expression tests only check error texts and a few goldens use one operator; precedence, associativity, numeric formats and boundary values form an unbounded space.",
     ["internal/ast/expr.go", "internal/prs/expr.go", "internal/prs/call.go", "internal/val/val.go", "internal/tok/parse.go"],
     [("precedence climbing", "internal/ast/expr.go buildExpr"), ("evaluation", "internal/prs/expr.go Eval"), ("operator precedence table", "internal/tok/token.go")],
     ["compiled JSON: Consts, widths", "constants dump"])

prop("C09", "Names resolve to the innermost visible definition, across files and packages",
     "An identifier in an expression or a type reference denotes the definition found by searching the enclosing bodies from inside out and then the package of the file, and a qualified identifier denotes the definition in the package imported under that name by that very file. "
     "Packages are found wherever they lie below the working directory or the package path, the result does not depend on how definitions are spread over the files of a package or on the order of declarations, and an import that matches no package or several is rejected.",
     ["programs", "configurations"], "all nestings with shadowed names, all partitions of packages into files and directories, import aliases and package path settings",
     "Existing tests have a few single-package lookups and no shadowing, several files, symlinks or package path; wrong resolution needs two definitions of one name in particular scopes.",
     ["internal/prs/inst.go", "internal/prs/type.go", "internal/prs/file.go", "internal/prs/pkg.go", "internal/prs/pre.go", "internal/prs/import.go", "internal/prs/prs.go", "internal/prs/symbol_container.go"],
     [("scope chain lookup", "internal/prs/inst.go, type.go GetConst/GetType; file.go"), ("package discovery", "internal/prs/pre.go"), ("import binding", "internal/prs/import.go")],
     ["compiled JSON", "exit status and diagnostics"])

prop("C10", "Equivalent spellings and reorderings compile to the same bus",
     "Changing only how a description is written - blank lines, trailing comments, a comma after the last element of a list where it is accepted, inline property lists instead of bodies, grouped instead of single constant definitions, number notation, spacing inside expressions, order of properties, or of constants and types relative to other definitions - leaves the compiled bus, addresses and ID included, unchanged. "
     "Reordering functionalities of different kinds leaves every functionality's registers unchanged.",
     ["programs"], "all valid descriptions and all meaning-preserving rewrites of them",
     "Each test has one spelling; no test compares two spellings.",
     ["internal/tok/parse.go", "internal/ast/build.go", "internal/ast/body.go", "internal/ast/const.go", "internal/ast/prop.go", "internal/prs/body.go"],
     [("tokenizer", "internal/tok/parse.go"), ("statement builders", "internal/ast/*.go")],
     ["compiled JSON"])

prop("C11", "Any input is either compiled or rejected with a diagnostic, never a crash",
     "For any bytes given as a description the compiler terminates within bounded time and memory and either succeeds or exits with a failure status and a human-readable message; it never crashes, hangs or prints a partial result. "
     "The tokens it recognises lie inside the source, in order, without overlap, with line and column matching their offset, and a line quoted by a diagnostic is the source line it names, marked at the column it names.",
     ["inputs"], "all byte strings: random bytes, mutated valid descriptions, random token sequences, truncations",
     "The lexer and parser tests feed about sixty fixed snippets; crashes hide in malformed combinations nobody wrote down.",
     ["internal/tok/parse.go", "internal/tok/error.go", "internal/ast/build.go", "internal/ast/expr.go", "internal/ast/body.go", "internal/prs/prs.go", "internal/prs/expr.go"],
     [("tokenizer error returns", "internal/tok/parse.go"), ("unexpected-token errors", "internal/ast/unexpected.go"), ("fatal reporting", "internal/prs/prs.go, internal/ins/ins.go")],
     ["exit status, stdout and stderr of the compiler"])

prop("C12", "Invalid descriptions are rejected, at the right place, with nothing emitted",
     "A description that breaks a rule of the language (unknown name, type, property or argument, duplicate name, property set twice or in conflict, wrong value type or range, value wider than its width, forbidden nesting, missing mandatory property or argument, self-referencing definition, reserved name) never compiles. "
     "The compiler exits with a failure status, prints no result, and a diagnostic that carries a location names the line of an offending construct.",
     ["programs"], "all valid descriptions with one rule violation injected at any place, directly, through a type, or in an imported package",
     "There is one golden message per rule, always in the smallest possible description; whether a rule still fires in nested bodies, via inherited types or in other files is untested.",
     ["internal/ins/check.go", "internal/prs/check.go", "internal/ins/common.go", "internal/ins/args.go", "internal/util/util.go", "internal/prs/body.go", "internal/prs/prs.go", "internal/ins/group.go", "internal/util/group/group.go", "internal/util/block/block.go"],
     [("property checks", "internal/ins/check.go"), ("duplicate checks", "internal/prs/*.go, internal/util/block, internal/util/group"), ("inner type table", "internal/util/util.go")],
     ["exit status, stdout and stderr"])

prop("C13", "Compilation is deterministic and independent of history and environment",
     "Compiling the same description again - in the same process after any sequence of other compilations, in a new process, from another working directory or file path, with unrelated packages present, or with debug output on - gives the identical result, or, when a single rule is broken and the file paths are given in the same way, the identical diagnostic. "
     "The timestamp option adds exactly one register at the end of the bus's own registers and changes nothing else except the sizes and addresses that follow from that register and the ID value, which covers those sizes and addresses but not the timestamp itself.",
     ["histories", "configurations", "schedules"], "all sequences of compilations of different descriptions (different bus widths and alignments) in one process, all environments, and the parallel parsing schedules that occur; packages parsed at the same time share no memory without synchronisation (data races are looked for with the race detector)",
     "Every test compiles once in a fresh process; state left from a previous compilation, map iteration order and goroutine order only show over repeated runs.",
     ["pkg/fbdl/compile.go", "internal/ins/ins.go", "internal/reg/reg.go", "pkg/fbdl/types/init.go", "internal/prs/prs.go", "cmd/fbdl/main.go", "internal/reg/id_and_ts.go"],
     [("package-level bus width and alignment reset for each compilation", "internal/ins/ins.go, internal/reg/reg.go, pkg/fbdl/types/init.go")],
     ["compiled JSON", "public Go API Compile"],
     [("bus width and alignment globals", "set per compilation", "internal/ins/ins.go busWidth, internal/reg/reg.go, pkg/fbdl/types/init.go")])

prop("C14", "The bus ID identifies the interface",
     "The ID fits its register, is a function of the compiled interface only, and differs between buses whose interface differs in a single name, kind, count, width, bit placement, initial value, atomicity, irq property, constant or block. "
     "It does not depend on how the interface was written (types, expressions, order of constants) or on the value of the timestamp.",
     ["programs"], "all pairs of buses one interface edit apart, up to the collision rate of a 32-bit checksum",
     "The goldens pin IDs of fixed descriptions; that each hashed field influences the ID for every functionality kind is not tested.",
     ["internal/util/hash/hash.go", "internal/util/hash/block.go", "internal/util/hash/config.go", "internal/util/hash/access.go", "internal/util/hash/irq.go", "internal/util/hash/proc.go",
      "internal/util/hash/stream.go", "internal/util/hash/elem.go", "internal/util/hash/constContainer.go", "internal/reg/reg.go", "internal/reg/id_and_ts.go"],
     [("hash of the functionality tree", "internal/util/hash"), ("ID static", "internal/reg/reg.go")],
     ["compiled JSON: Statics ID InitValue"])

prop("C15", "Bit strings and initial values denote exactly the declared value",
     "An initial, reset, read or enable value given as an integer or bit string is stored as a bit string that denotes the same value in no more than the declared width, and a value that does not fit is rejected. "
     "Converting a bit string to binary, extending it and converting it to an integer preserve its value, width rules and meta-logic digits.",
     ["inputs", "programs"], "all integers, widths, bit string notations and digits including meta values",
     "The unit tests tabulate a few conversions up to 16 bits; boundaries near 2^width, odd widths, octal notation and meta digits are unsampled.",
     ["internal/val/bit_str.go", "pkg/fbdl/types/bit_str.go", "internal/ins/common.go"],
     [("integer to bit string", "internal/val/bit_str.go BitStrFromInt"), ("conversions", "pkg/fbdl/types/bit_str.go"), ("width check", "internal/ins/common.go processValue")],
     ["public Go API BitStr", "compiled JSON: *Value"])

prop("C16", "A range property gives the smallest width that holds every allowed value",
     "For every range (single bound, left and right bound, or list of ranges) the width derived for the functionality is the smallest number of bits that represents its largest allowed value, and the range reported is the range declared. ",
     ["inputs"], "all bounds from 0 up to the largest integer, single and multiple ranges, configs and params, directly and through types",
     "Unit tests tabulate about ten small bounds; the width is computed with floating point logarithms, which go wrong only near large powers of two.",
     ["pkg/fbdl/types/range.go", "internal/ins/config.go", "internal/ins/param.go", "internal/ins/check.go"],
     [("bit width of a range", "pkg/fbdl/types/range.go BitWidth"), ("defaulting the width", "internal/ins/config.go fillConfigProps, internal/ins/param.go")],
     ["public Go API Range", "compiled JSON: Width, Range"])

prop("C17", "The command line tool does exactly what its options say",
     "For every order and combination of documented flags and parameters the tool compiles the named main file with the named main bus, writes only the JSON result to standard output, writes the constants of every package to the requested file only when asked, and fails with a message and failure status when an option or file is missing or unknown. "
     "The result equals that of the library entry point for the same file.",
     ["configurations", "inputs"], "all sequences of options, option values and file names, including missing and unknown ones",
     "The test scripts only ever run the tool with the main file and one undocumented parameter.",
     ["cmd/fbdl/main.go", "internal/args/parse.go", "internal/args/args.go", "internal/args/help.go", "pkg/fbdl/compile.go", "internal/ins/const.go"],
     [("argument state machine", "internal/args/parse.go"), ("outputs", "cmd/fbdl/main.go")],
     ["exit status, stdout, stderr, files written"])

prop("C18", "Query methods of the compiled structure agree with the structure",
     "For every compiled bus the methods that code generators call on the library's result answer what the data of the result says: the start and size of the parameter and return buffers of a procedure are exactly the registers its parameters and returns occupy, "
     "the class of a procedure (empty, params only, returns only) and the direction and start of a stream follow from its elements, a group is read-only exactly when nothing in it can be written, a constants container is empty exactly when it holds no constant of any type, "
     "and the address range, name and kind of every functionality, the start of a block, shifted ranges and zero delays are those of the data.",
     ["programs", "inputs"], "all compiled buses and all structures a user of the library can make up",
     "No unit test calls any of these methods; the tool itself does not use them either, so golden files cannot show a wrong answer.",
     ["pkg/fbdl/fn/proc.go", "pkg/fbdl/fn/stream.go", "pkg/fbdl/fn/group.go", "pkg/fbdl/fn/block.go", "pkg/fbdl/fn/func.go", "pkg/fbdl/cnst/container.go", "pkg/fbdl/types/access.go", "pkg/fbdl/types/range.go", "pkg/fbdl/types/time.go"],
     [("buffers of procedures", "pkg/fbdl/fn/proc.go"), ("direction of streams", "pkg/fbdl/fn/stream.go"), ("read-only groups", "pkg/fbdl/fn/group.go IsReadOnly"), ("empty containers", "pkg/fbdl/cnst/container.go Empty")],
     ["public Go API: methods of fn.Proc, fn.Stream, fn.Group, fn.Block, cnst.Container, types.Access, types.SingleRange, types.Time"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        p["statement"] = p["statement"].strip()
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
