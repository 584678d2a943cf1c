#!/usr/bin/env python3
"""Single source of properties.jsonl (run after editing; the output is committed)."""
import json, pathlib
AE = ["src/auto_enum/mod.rs", "src/auto_enum/expr.rs", "src/auto_enum/visitor.rs", "src/auto_enum/context.rs"]
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    M = {"executions": "histories", "operation_sequences": "histories", "faults": "fault_sequences"}
    over = list(dict.fromkeys(M.get(o, o) for o in over))
    a = {"files": files, "mechanism": [{"name": mech, "where": ", ".join(files)}]}
    if observe: a["observe_at"] = [observe]
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
HOOK = "auto_enums_verif cfg: lets the two macro entry points be called as ordinary functions in-process"
OBS = "the two macro entry points (input tokens -> output tokens) and the behaviour of the compiled output"

p("C01", "Branches are wrapped one variant each, without changing what is run",
  "For every accepted annotated function, let binding, expression or closure built from if/else-if/else, match, blocks, unsafe blocks, parentheses and method-call receivers, the expanded program takes the same path, evaluates the same subexpressions in the same order, and yields the same value as the program without the attribute. Every value-producing branch is carried by its own variant of one generated enum, so branches of pairwise different types compile together and nothing that is not such a branch is wrapped.",
  ["inputs", "executions"], "all annotated programs of the grammar up to a size bound x all outcomes of every condition and scrutinee",
  "unit tests expand a few dozen fixed sources; the rewriting recurses over arbitrary nesting of expression forms and positions, and the wrong variant or a skipped branch only shows for particular nestings",
  AE, "recursive last-expression search that replaces each branch value by a constructor call of the next variant", OBS, HOOK)
p("C02", "Each break value of an annotated loop is wrapped, and only those",
  "For every annotated `loop`, each `break` that leaves that loop, from any depth of inner loops, labels, conditions or blocks, delivers its value through its own variant (a bare `break` delivers unit). Breaks and continues that target another loop, or that sit inside closures, async blocks or nested items, are left untouched, so every execution leaves the same loop with the same value as without the attribute.",
  ["inputs", "executions"], "all loop nests with labels/break/continue up to a size bound x all condition outcomes up to an iteration horizon",
  "targets of break depend on the interaction of labels, nesting and kind of inner loop; the tests contain a handful of loop shapes",
  ["src/auto_enum/expr.rs"], "label-aware visitor over the loop body", OBS, HOOK)
p("C03", "Every return of an annotated impl-Trait function or closure is wrapped",
  "In an annotated function whose return type is `impl Trait`, or a directly annotated closure, every `return` that leaves that function or closure, wherever it occurs (conditions, scrutinees, arguments, let-else, loops), delivers its value through its own variant together with the tail branches. A `return` inside an inner closure, async block or nested item belongs to that inner body and keeps its own type and value.",
  ["inputs", "executions"], "all functions/closures with returns in any expression position up to a size bound x all condition outcomes",
  "return may occur in any expression position at any depth and inside inner bodies; each position is a separate path through the rewriting which samples do not cover",
  ["src/auto_enum/mod.rs", "src/auto_enum/visitor.rs"], "counting pre-pass that selects a mode, then scope-tracking rewriting of return expressions", OBS, HOOK)
p("C04", "Every `?` of an annotated Result function or closure wraps its error once",
  "In an annotated function returning `Result<T, impl Trait>`, or a directly annotated closure, with two or more `?`, every `?` of that body evaluates its operand once, yields the Ok value unchanged, and on Err returns exactly that error through its own variant. A `?` inside an inner closure, async block or nested item keeps its meaning, and tail expressions are not rewritten.",
  ["inputs", "executions", "faults"], "all Result-returning bodies up to a size bound x every Ok/Err outcome of every operand",
  "error paths multiply with each operator; tests exercise few combinations of position and failing operand",
  ["src/auto_enum/mod.rs", "src/auto_enum/visitor.rs"], "desugaring of the operator into a match with an early return of a wrapped error", OBS, HOOK)
p("C05", "Diverging branches take no variant",
  "A branch whose last expression is one of the documented diverging forms (panic!, unreachable!, return, break, continue, `None?`, `Err(..)?`, a marker macro, an item, a match of only such arms, blocks/parentheses/receivers ending in one), or that carries `#[never]`, gets no variant and behaves as it does without the attribute. Branches that are not of these forms always get one, so every generated variant is constructed by some reachable branch.",
  ["inputs", "executions"], "all placements and combinations of diverging forms among the branches up to a size bound x all paths",
  "a misclassified branch only fails for that combination of syntactic form and position (compile error or wrong variant)",
  ["src/auto_enum/expr.rs", "src/auto_enum/visitor.rs"], "syntactic divergence analysis", OBS, HOOK)
p("C06", "`#[nested]` flattens inner branches into the same enum",
  "A branch, arm, let binding or expression marked `#[nested]` contributes its own inner branches as further variants of the enclosing annotation's enum instead of being wrapped itself, at any nesting depth and in combination with skipped branches. Values, evaluation order and path are those of the program without attributes, and no value is wrapped twice.",
  ["inputs", "executions"], "all trees of nested annotations up to a size bound x all paths",
  "numbering and double wrapping depend on how nested attributes and other forms combine, which is unbounded",
  ["src/auto_enum/expr.rs", "src/auto_enum/visitor.rs"], "nested attribute lookup + re-entry of last-expression search", OBS, HOOK)
p("C07", "marker! macros wrap exactly the marked values in the right scope",
  "Each expression-level marker macro is replaced by a variant of the annotation that owns that marker name: the default name or the custom name given, with inner annotations able to use an outer custom marker and each default marker belonging to the innermost annotation. Marked values are evaluated once and not wrapped again, and macros of other names are left untouched.",
  ["inputs", "executions"], "all placements of default/custom/foreign markers, in tail, return, break, semicolon-terminated and nested-annotation positions up to a size bound x all paths",
  "the owner of a marker depends on scopes, custom names and position together",
  ["src/auto_enum/context.rs", "src/auto_enum/visitor.rs"], "marker-name stack in the expansion context", OBS, HOOK)
p("C08", "Several annotations in one function stay independent",
  "Annotations on statements, let bindings, expressions and closures inside an annotated function (with or without its own traits, sequential, nested or textually identical) each get their own enum and wrap only their own branches. An annotation without arguments changes nothing except processing the annotations inside it, and everything else in the input is passed through unchanged.",
  ["inputs", "executions"], "all arrangements of up to three annotations over the program grammar up to a size bound x all paths",
  "state shared across annotations (marker stack, child flags, enum names) shows only when particular arrangements meet",
  ["src/auto_enum/mod.rs", "src/auto_enum/visitor.rs", "src/auto_enum/context.rs"], "child contexts created and joined while visiting", OBS, HOOK)
p("C09", "The macros are total and deterministic: valid expansion or clear rejection",
  "For every input token sequence, both macros terminate without panicking and produce either syntactically valid Rust or a compile error, and the same input always produces the same output. Annotated code with fewer than two wrapped values, an `if` branch without `else`, an uninitialised let, an empty function, a duplicated marker name, a malformed or removed attribute, or an unsupported item is always rejected with a compile error rather than silently passed or mis-expanded.",
  ["inputs"], "all token strings over a keyword/punctuation alphabet up to a length bound, and all single-defect mutations of grammar programs",
  "UI tests pin a few malformed inputs; a panic or silent acceptance is input-specific",
  ["src/auto_enum/mod.rs", "src/auto_enum/context.rs", "src/auto_enum/visitor.rs", "src/enum_derive.rs", "src/error.rs"], "error accumulation in the context, parse fallback statement->expression", OBS, HOOK)
p("C10", "Trait inference from impl-Trait types derives exactly the named supported traits",
  "With the trait-inference feature, an annotated function return type or let type containing `impl Trait` bounds derives each supported bound exactly once, in addition to explicitly listed traits and without duplicating them, at any nesting of the type, and ignores bounds it does not know. A let's impl-Trait type is removed from the binding, other types are kept, and without such bounds or with the feature off nothing is inferred.",
  ["inputs", "configurations"], "all return/let types up to a size bound over known and unknown bounds x all explicit argument subsets x feature on/off",
  "bounds may be written anywhere inside a type and combine with explicit arguments; the tests cover seven functions",
  ["src/auto_enum/type_analysis.rs", "src/auto_enum/mod.rs"], "type visitor collecting trait bounds", OBS, HOOK)

DIS = "per-variant delegating trait implementations generated by the derive"
def d(id, title, st, text, files, why, obs="the derived enum's trait methods, run against instrumented field types"):
    p(id, title, st, ["operation_sequences", "inputs", "faults"], text, why, files, DIS, obs)
WHY = "each method x variant x call history x field answer is a separate path; the existing tests mostly only check that the derive compiles"
d("C11", "Iterator-family enums behave exactly like the active field",
  "For every enum deriving Iterator, DoubleEndedIterator, ExactSizeIterator, FusedIterator, TrustedLen or Extend and every active variant, any sequence of calls (forward, backward, sized, folding, searching, collecting) returns what the active field would return and drives that field with the same calls in the same order. No other field is touched, size hints and lengths agree, and the field is dropped exactly once.",
  "all call sequences up to a depth over the trait methods x 1..n variants x active variant x field answers", ["src/derive/core/iter.rs"], WHY)
d("C12", "std::io enums read, write, seek and buffer exactly like the active field",
  "For every enum deriving Read, BufRead, Write or Seek and every active variant, any sequence of operations (including vectored, to-end, exact, line, formatted and seek operations) returns the same results, errors and buffer contents as the active field under every short read/write, interruption and error, and forwards the same calls. A consume or partial transfer is applied exactly once, to the active field only.",
  "all operation sequences up to a depth x variants x answers {full, short, zero, Interrupted, error}", ["src/derive/std/io.rs"], WHY)
d("C13", "Formatting and Error are forwarded to the active field",
  "For every enum deriving Debug, Display, Pointer, Binary, Octal, hex or exponent formatting or fmt::Write, the output under every formatter option and every write failure is that of the active field in the same trait, unmodified. For Error, the source is the active field itself, and displaying or debugging the enum matches the active field.",
  "all formatting traits x formatter options x variants x writer failure points", ["src/derive/core/fmt.rs", "src/derive/std/error.rs"], WHY)
d("C14", "Operator, callable and conversion traits delegate to the active field",
  "For every enum deriving Deref, DerefMut, Index, IndexMut, RangeBounds, Fn, FnMut, FnOnce, Coroutine, AsRef or AsMut, every method returns the reference, bound or result of the active field's same method with the same arguments (same address for references), and mutation through the enum is mutation of the active field. Callables run the active field's body exactly once per call.",
  "all call sequences up to a depth x variants x arguments", ["src/derive/core/ops.rs", "src/derive/core/convert.rs"], WHY)
d("C15", "Polled traits delegate through a stable pin with the caller's context",
  "For every enum deriving Future, futures 0.3 Stream/Sink/AsyncRead/AsyncWrite/AsyncSeek/AsyncBufRead, tokio 1/0.3/0.2 async I/O or http-body Body, every poll sequence gives the result (Pending, Ready value, error), buffer effects and hints of the active field. The field is polled with the caller's own waker context, once per poll, pinned at one unchanging address inside the enum from first poll to drop.",
  "all poll/operation sequences up to a depth x answers {Pending, Ready, Err, end} x variants x wakers", ["src/derive/core/future.rs", "src/derive/external/futures03.rs", "src/derive/external/tokio1.rs", "src/derive/external/tokio03.rs", "src/derive/external/tokio02.rs", "src/derive/external/http_body1.rs"], WHY)
d("C16", "futures 0.1 and tokio 0.1 enums delegate every operation",
  "For every enum deriving futures 0.1 Future, Stream or Sink, or tokio 0.1 AsyncRead or AsyncWrite, every sequence of operations returns the active field's result (ready, not ready, rejected item given back, error) and drives only that field. Buffers and readiness hints behave as on the field.",
  "all operation sequences up to a depth x answers x variants", ["src/derive/external/futures01.rs", "src/derive/external/tokio01.rs"], WHY)
d("C17", "rayon enums give the active field's items under every split",
  "For every enum deriving rayon ParallelIterator, IndexedParallelIterator or ParallelExtend and every active variant, any consumer sees exactly the active field's items in order under every way of splitting the work, and reported lengths are the field's. Each driving operation consumes the active field exactly once with the caller's consumer or callback.",
  "all split trees of bounded length x variants x drive operations", ["src/derive/external/rayon.rs"], WHY)
d("C18", "Serialized form of an enum is that of the active field",
  "For every enum deriving serde Serialize and every active variant, serializing it issues exactly the serializer calls that serializing the active field issues, with no wrapping and no additional data, and propagates errors at any point. This holds for every data-model shape of the field.",
  "all value shapes up to a depth x variants x serializer failure points", ["src/derive/external/serde.rs"], WHY)
d("C19", "Transpose methods move the payload out without changing variant",
  "For an enum deriving the transpose methods, transposing an enum of options or results returns None/Some, Ok/Err according to the active payload, re-wrapped in the same variant position of the enum (transpose_ok and transpose_err leave the other side unwrapped). It holds for every number of variants and every active one, payloads are moved exactly once, and enums for which it is meaningless are rejected.",
  "all numbers of variants up to a bound x active variant x payload case x method", ["src/derive/ty_impls/transpose.rs"], WHY)
p("C20", "Derived pinned traits cannot be made unsound by users",
  "An enum deriving any trait whose methods take a pinned receiver is Unpin exactly when all its fields are Unpin, and user code that also implements Unpin or Drop for it is rejected by the compiler. Enums deriving only other traits keep the freedom to implement Unpin, and Drop unless a method of a derived trait consumes self (rustc forbids moving the field out then).",
  ["inputs", "configurations"], "all supported traits, alone and combined with others x {conditional Unpin, manual Unpin, manual Drop} x enum shapes",
  "soundness depends on every pinned trait registering itself, in every combination of derived traits",
  ["src/enum_derive.rs", "src/derive"], "pin-projection flag set by individual derives and guard code emitted once", "which programs the compiler accepts", HOOK)
p("C21", "Derived trait lists are completed and deduplicated, whatever their order",
  "For every list of distinct supported traits, in any order and with either spelling of an aliased name, each listed trait and each required supertrait that the macro supplies is implemented exactly once. The resulting set of implementations does not depend on the order of the list.",
  ["inputs"], "all ordered lists of supported trait names up to a length bound, both spellings",
  "missing or duplicated implementations appear only for particular pairs, orders and spellings",
  ["src/enum_derive.rs"], "dependency table and alias lookup folded over the argument list", OBS, HOOK)
p("C22", "Feature flags enable exactly the documented traits",
  "For every combination of crate features, each trait is provided if and only if the documentation attributes it to an enabled feature (or to none), and a trait whose feature is off is handed to the ordinary derive. Unstable traits demand the explicit opt-in feature.",
  ["configurations"], "all single features, all-but-one, pairs, none, default and all x all trait names",
  "CI builds a feature powerset only for compile errors; which traits are active under each set is untested",
  ["src/enum_derive.rs", "src/lib.rs", "src/derive"], "cfg-gated registration tables", OBS)
p("C23", "Derives accept every well-formed enum shape and reject the others",
  "For every enum whose variants each hold exactly one unnamed field, with any generics (lifetimes, types, consts, defaults, where clauses, bounds), attributes and visibility, each derived trait is implemented exactly when every field type implements it and associated types agree, whatever the number of variants. Enums without variants, unit, named-field or multi-field variants, discriminants and non-enum items are rejected with a compile error.",
  ["inputs"], "all enum shapes up to a bound (1..n variants, field kinds, generics) x supported traits",
  "generic parameters, bounds and shapes combine freely; tests use nearly one shape",
  ["src/enum_derive.rs", "src/derive"], "generic where-clause generation per trait", "which programs the compiler accepts", HOOK)
p("C24", "Unknown traits and item contents pass through enum derive unchanged",
  "Every path in the derive list that is not a supported trait is passed to the ordinary derive exactly once in the given order, and supported ones never are. The enum itself (name, visibility, attributes, generics, variants, fields, discriminating order) is emitted unchanged and the derived items only add implementations.",
  ["inputs"], "all argument lists up to a length bound mixing known, unknown, aliased and path-qualified names x enum shapes",
  "tests use a few fixed lists",
  ["src/enum_derive.rs"], "partition of argument list into handled and forwarded", OBS, HOOK)
p("C25", "Expansions do not depend on, or leak into, the surrounding names",
  "Expanded code compiles with unchanged meaning in any module, including when user code shadows prelude names, std modules, Result/Option/Ok/Err, primitive trait names, or uses similar local variable names, in a no_std crate with default features off, and in every edition from 2018. The generated items are not visible outside the annotated item or statement.",
  ["inputs", "configurations"], "all supported traits and all attribute positions x each shadowed name x edition x std/no_std",
  "name capture needs the user to have chosen a specific identifier",
  ["src/derive", "src/auto_enum/visitor.rs", "src/auto_enum/context.rs"], "absolute paths and generated identifiers", "which programs the compiler accepts, and their behaviour")
out = pathlib.Path(__file__).with_name("properties.jsonl")
for x in P:
    assert len(x["title"]) <= 80, x["title"]
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
