import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['hook_needed']=None
    P.append(d)
B='laby_common/src/internal/buffer.rs'; E='laby_common/src/internal/escape.rs'; R='laby_common/src/render.rs'
H='laby/src/helpers.rs'; MB='laby_macros/src/build.rs'; MN='laby_macros/src/node.rs'; MC='laby_macros/src/component.rs'; MM='laby_macros/src/matching.rs'; ML='laby_macros/src/lib.rs'; L='laby/src/lib.rs'
p('C01','HTML escaping is exact for every string',
 'Escaping a string appends exactly that string with every `"`, `&`, `\'`, `<` and `>` replaced by `&quot;`, `&amp;`, `&#39;`, `&lt;` and `&gt;` and every other byte kept unchanged and in order. This holds for every string of every length, content and memory alignment, and whichever of the per-CPU implementations does the work.',
 ['inputs','configurations'],'every valid &str (any length, any byte content, any start address) times every kernel (small-string, portable, SSE2, AVX2 and its short-input path)',
 'The tests feed a few fixed strings and random ones through the one kernel the test CPU selects; chunk-boundary, alignment and tail cases of the other kernels are not reached, and no sample covers all strings.',
 [E],[('escape table and entity table','escape.rs ESCAPE_LUT/ESCAPED'),('SIMD/SWAR candidate masks','escape.rs avx2/sse2/fallback maskgen, contains_key'),('run copying between candidates','escape.rs naive::proceed/escape/escape_small')],
 ['laby::internal::escape','laby::internal::escape_str','Render for &str and String'])
p('C02','CPU dispatch never runs an unsupported escaping routine',
 'An escaping routine that uses an instruction-set extension runs only after the processor (and operating system, where register state is involved) has been found to support that extension, and a routine is only handed inputs long enough for it. The remembered choice is always one of the real routines, so dispatch always terminates in a complete escape of the given input, including the very first call.',
 ['configurations','inputs'],'every CPU feature combination x86 CPUs can report, first call and later calls, every input length',
 'The test machine is one CPU with every feature; the branches for other CPUs never execute.',
 [E],[('runtime feature detection','escape.rs escape_impl::detect'),('length split before dispatch','escape.rs escape_impl'),('cached function pointer','escape.rs FN')],['laby::internal::escape'],
 [('FN','address of the selected escaping routine; initially the detector','laby_common/src/internal/escape.rs')])
p('C03','Runtime text is escaped unless explicitly raw',
 'Text that comes from a runtime value (string, character, copy-on-write string, formatted arguments, displayed value), alone, inside an option or iterator, as a child, as an attribute value or as a dynamic attribute name, reaches the output only in escaped form. The only unescaped text is generated markup, the raw wrapper\'s content, iterator delimiters, and digits or fixed words that contain no special character.',
 ['inputs','programs'],'every value of every built-in renderable type and every markup position',
 'Tests check one or two strings for a few types; a single type or position that forwards text unescaped is invisible to them and is a cross-site scripting hole.',
 [R,H,MB,'laby/src/doctype.rs'],[('Render impls','render.rs, helpers.rs'),('generated render calls for dynamic names, values and children','build.rs set_attr/set_boolean_attr/set_child')],['rendered output'])
p('C04','The output buffer is memory safe under every use of its safe API',
 'For every sequence of safe operations on output buffers (create, append, reserve, clear, clone, convert from and to strings, move, drop) no operation reads or writes outside the live allocation, uses freed memory, frees twice, leaks on conversion, or (re)allocates or frees with a layout other than the one allocated. A size that cannot be represented panics or aborts instead of corrupting memory.',
 ['histories','inputs'],'every sequence of safe calls with every size, string, character and capacity, including arithmetic extremes, in debug and release builds',
 'Tests call each method a couple of times with small sizes; growth-boundary, zero-capacity and overflow histories are unbounded.',
 [B],[('length <= capacity = allocated size invariant','buffer.rs Buffer'),('growth','buffer.rs reserve_internal/safe_alloc/safe_realloc'),('ownership transfer','buffer.rs into_string/From<String>/Clone/Drop')],['laby::internal::Buffer'],
 [('Buffer{data,len,capacity}','dangling iff capacity is 0, else a live allocation of exactly capacity bytes, align 1','laby_common/src/internal/buffer.rs')])
p('C05','Buffer content is exactly what was appended',
 'After any sequence of operations the content of an output buffer equals the concatenation, in order, of everything appended since it was created or last cleared; length, emptiness and string views agree with that content, which is always valid UTF-8. Growing or reserving never changes content, reserving n leaves room for n more bytes, a buffer created with a capacity has at least that capacity, clones have the same content and are independent, and conversions from and to strings preserve content.',
 ['histories','inputs'],'every sequence of safe buffer calls and every argument',
 'Unit tests look at a few short histories; content at each reallocation boundary and after each conversion cannot be sampled exhaustively.',
 [B],[('append operations','buffer.rs push_str/push/Add/AddAssign/fmt::Write'),('conversions','buffer.rs From/into_string/Clone')],['laby::internal::Buffer'])
p('C06','Raw-pointer renderers stay inside their input and reserved space',
 'While rendering any string, character, integer or float, every raw read lies inside the input (or a constant table) and every raw write lies inside space reserved in the output buffer beforehand, and the length is advanced only over bytes that were written. This holds for every value and length and every buffer fill level, including an empty, never allocated buffer.',
 ['inputs'],'every input value and length, every alignment, every prior buffer state, every kernel, debug and release',
 'An off-by-one read or write inside a rounded-up allocation is silent in tests, and kernels not selected by the test CPU never run.',
 [E,R],[('reserve before write','render.rs impl_int/impl_float, escape.rs escape_impl/push_escaped_str'),('pointer-window arithmetic','escape.rs kernels')],['Render impls','laby::internal::escape'])
p('C07','Rendering only appends',
 'Rendering a value into an output buffer leaves every byte already in that buffer unchanged and adds its own output after them, so rendering values one after another yields the concatenation of their separate renderings. What a value adds does not depend on what the buffer held before.',
 ['inputs','histories'],'every built-in renderable and every generated node, every prior buffer content and capacity',
 'Tests mostly render into a fresh large buffer, so a truncation, overwrite or dependence on earlier content does not show.',
 [R,E,H,MN],[('append-only buffer operations','buffer.rs'),('render implementations','render.rs, helpers.rs, generated impls')],['rendered output'])
p('C08','Concurrent rendering is independent',
 'Rendering on any number of threads at once gives each thread the output it would get alone; the only state shared between renderings is the remembered choice of escaping routine, which at every moment is a routine that is valid to call. Buffers own their memory exclusively, so handing them to other threads is sound.',
 ['schedules'],'every interleaving of any number of threads, including the first escapes of the process racing each other',
 'A race on the first call needs a particular interleaving and the tests run it once per process.',
 [E,B],[('single atomic pointer, idempotent store','escape.rs FN'),('Send/Sync for Buffer justified by unique ownership','buffer.rs')],['laby::internal::escape','laby::internal::Buffer'])
p('C09','Element markup is complete and balanced',
 'A normal element renders as its start tag, its children in the order written, then the matching end tag; a void element renders as the start tag alone; a fragment renders only its children; the class-list fragment puts exactly one space between consecutive items. This holds for any number, kind, and nesting of children and attributes.',
 ['programs','inputs'],'every composition of markup macros and every runtime value placed in it',
 'Tests compare a fixed list of compositions; argument counts, mixes and depths are unbounded.',
 [MB,MN,ML],[('tree walk','build.rs build_inner'),('generated render body','node.rs')],['rendered output of markup macros'])
p('C10','Regular attributes render exactly as written',
 'Each regular attribute of an element renders, in the order written and before the closing `>` of the start tag, as one space, its name, `="`, its escaped value, `"`. Names written as identifiers, literals or expressions follow the same form (an identifier stands for its plain name), and no attribute is dropped, merged, reordered, or moved to another element.',
 ['programs','inputs'],'every number and mix of attributes, every name form and value form',
 'Tests use a handful of fixed attribute lists.',
 [MB],[('attribute emission','build.rs set_attr')],['rendered output of markup macros'])
p('C11','Boolean attributes appear iff true',
 'A boolean attribute renders as one space and the bare name when its condition evaluates to true and as nothing at all when it evaluates to false, whether the condition is a literal or an expression and whatever form the name takes. Its presence never affects any other attribute or child.',
 ['programs','inputs'],'every mix of boolean attributes, name forms and condition values',
 'Tests cover a few single-attribute cases; combinations of conditions are exponential.',
 [MB,H],[('boolean attribute emission','build.rs set_boolean_attr')],['rendered output of markup macros'])
p('C12','Each expression is evaluated once, in order, when the node is built',
 'Every expression given to a markup macro is evaluated exactly once, when the macro expression is evaluated and not at render time: the attribute expressions of an element in the order written (a dynamic name before or after its value, but each once), then its children\'s. Rendering the node renders each stored value exactly once, in output position, and never re-evaluates, skips or duplicates a user expression.',
 ['programs','inputs'],'every composition of markup macros with side-effecting expressions',
 'Side effects of argument expressions are hardly observed by the tests; skipped or doubled evaluation does not change the rendered text.',
 [MB,MN],[('store_generic/store_concrete','node.rs'),('constructor field order','node.rs NodeCtor')],['side effects of argument expressions'])
p('C13','Flattening nested macros is invisible',
 'Writing a markup macro directly as a child of another gives the same output and the same evaluations, in the same order, as first binding that child node to a variable would give for its output. This holds at every nesting depth and for every tag, fragment and class list.',
 ['programs'],'every nesting of markup macros to any depth',
 'Tests nest a few fixed tags two or three deep; only 115 tags times depth times position covers it.',
 [MB,ML],[('flattening of known tags','build.rs build_inner, lib.rs get_element')],['rendered output of markup macros'])
p('C14','Literals render like the equal runtime value',
 'A literal written directly in a markup macro, as attribute name, attribute value or child, with or without parentheses or braces, renders exactly as the same value held in a variable of the literal\'s type would, including escaping and numeric formatting. Kinds of literal with no runtime rendering (byte strings) are not accepted either.',
 ['inputs','programs'],'every string, char, byte, bool, integer and float literal in every position',
 'Tests use a few literals; escapes, suffixes, radixes and positions combine without bound.',
 [MB],[('compile-time literal rendering','build.rs try_unwrap_literal/try_render_literal')],['rendered output of markup macros'])
p('C15','Component calls bind arguments by name',
 'Calling a component macro passes each named argument to the parameter of that name regardless of the order written, fills omitted parameters from their declared default, and collects all unnamed arguments, in order, into the rest parameter through its wrapper. A call that omits a parameter without default, names an unknown parameter, or gives unnamed arguments without a rest parameter is rejected at compile time, and an argument given twice uses the last one. The same holds with the feature decl_macro, where components can also be called by a path and public ones from other crates.',
 ['programs','inputs'],'every component signature and every call of it',
 'Tests call a few components; parameter counts, orders and default/rest mixes are combinatorial.',
 [MC],[('signature-encoding macro and call rewriting','component.rs')],['arguments received by the component function'])
p('C16','frag_match renders exactly the selected branch',
 'A conditional fragment evaluates its condition or scrutinee once with ordinary if/match semantics and renders exactly the value of the branch that is taken; no other branch is evaluated or rendered, and nothing is rendered when an if without else is not taken. Branches may have different types and there may be any number of them.',
 ['programs','inputs'],'every if/else-if chain and match, every taken path',
 'Tests have chains of two or three branches and take a few paths.',
 [MM],[('per-branch Option variables','matching.rs')],['rendered output'])
p('C17','Iterator rendering is lazy, ordered, complete and correctly delimited',
 'An iterator wrapper does nothing until rendered; rendering advances the iterator until it is exhausted, renders each item exactly once in the order yielded, and, in the delimited form, writes the delimiter unescaped exactly once between consecutive items and nowhere else. The raw wrapper writes its text unescaped and the newline form uses a single newline as delimiter.',
 ['inputs'],'every iterator (any length including 0 and 1, any item type) and every delimiter',
 'Tests use one three-item range.',
 [H],[('render loops','helpers.rs RenderIterator/RenderIteratorDelimited/RenderRaw'),('wrapping macros','helpers.rs iter!/iter_lines!/raw!')],['rendered output','iterator side effects'])
p('C18','Scalars and wrappers render as their canonical text',
 'Booleans render as `true`/`false`, unit as nothing, characters as themselves (escaped if special), an option as its content or nothing, a borrowed or owned copy-on-write value and a non-zero integer as the value it holds, non-finite floats as `NaN`, `inf`, `-inf`, and the HTML5 doctype as `<!DOCTYPE html>`. Every integer and finite float value is handed unchanged to the decimal formatter of its own type.',
 ['inputs'],'every value of every built-in renderable type (28 numeric types included)',
 'Tests check a few values of some types; a wrong width, sign or swapped branch for one type is not seen.',
 [R,'laby/src/doctype.rs'],[('Render impls','render.rs')],['rendered output'])
p('C19','Ill-formed markup is rejected at compile time',
 'A void element given a child, a fragment given an attribute, a boolean-attribute marker used anywhere but as an attribute value or with a non-boolean, a value that cannot be rendered, and a reused single-use node all fail to compile, at any nesting level. Invalid component declarations or calls (receiver parameter, arguments to the attribute, several rest parameters) are rejected too.',
 ['programs'],'every program using the macros in one of the forbidden ways, at every nesting depth and for every tag',
 'The test suite contains no negative test at all: everything in it has to compile.',
 [MB,MC,H],[('validity checks','build.rs build_inner, component.rs'),('type bounds on generated structs','node.rs')],['compilation result'])
p('C20','Rendering does not panic',
 'Rendering any built-in value or generated node never panics, aborts or hits an internal assertion, in debug as well as release builds, unless memory is exhausted, a size exceeds the address space, or user code (an iterator, a formatting implementation, a user component) itself panics or reports an error.',
 ['inputs','configurations'],'every value, every buffer state, debug and release builds',
 'Assertions inside the kernels only fire for particular lengths and alignments on the kernel in use.',
 [E,B,R,H],[('assertions and checked indexing','escape.rs, buffer.rs')],['rendering entry points'])
p('C21','Rendering allocates nothing but the output buffer',
 'Building a node from a markup macro and rendering built-in values performs no heap allocation of its own; the only allocation is growth of the output buffer. Converting the finished buffer to a string moves the memory without copying or allocating.',
 ['programs','inputs'],'every built-in renderable and every generated node',
 'The tests do not observe allocations.',
 [B,R,H,MN],[('stack-only generated structs','node.rs'),('buffer growth as single allocation site','buffer.rs')],['allocator calls'])
p('C22','The tag catalogue is complete and consistent',
 'Each of the 115 element macros renders the tag of its own name; exactly the HTML void elements (area, base, br, col, embed, hr, img, input, link, meta, param, source, track, wbr) are void; every element macro, fragment and class-list macro is exported by the library, is recognised when nested, and behaves the same nested as alone.',
 ['programs'],'all element macros, exported and nested',
 'Tests exercise a small part of the tags, and nested recognition is a separate table no test compares with the exports.',
 [ML,L],[('tag tables and macro declarations','lib.rs declare_tags/get_element'),('re-exports','laby/src/lib.rs')],['exported macros'])
p('C23','render! returns the concatenation of its arguments',
 'Rendering one or more values to a string yields exactly the concatenation, in the order written, of what each value renders on its own, evaluating each argument expression once and consuming it; with no values it yields the empty string. Trailing commas make no difference.',
 ['programs','inputs'],'every number and type of arguments',
 'Tests use one or two arguments.',
 [H],[('render! macro','helpers.rs')],['returned string'])
p('C24','The library works without the standard library',
 'The runtime crates (everything a rendered template links) depend only on the core and allocation libraries, and generated code refers to nothing outside the library, core and the user\'s own expressions, by absolute paths, so templates compile in crates without the standard library and where local names shadow std or prelude names. The names it introduces around the expressions it is given begin with an underscore (or carry the name of the library), so no other variable or type in scope is hidden.',
 ['programs','configurations'],'every use of every macro in a no_std crate or one that shadows prelude names',
 'The tests are all compiled with std and the normal prelude.',
 [L,'laby_common/src/lib.rs',MN,MC,MM,H],[('#![no_std]','crate roots'),('absolute paths in generated code','node.rs, build.rs, component.rs, helpers.rs')],['compilation result'])
p('C25','Rendered numbers read back as the same number',
 'The text rendered for an integer is its shortest decimal form, and the text rendered for a finite float parses back to exactly that float and is as short as possible. This holds for all values of all widths.',
 ['inputs'],'every integer and float value',
 'Tests check a dozen values.',
 [R],[('itoap and ryu formatting','render.rs impl_int/impl_float')],['rendered output'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import jsonschema
for x in P: jsonschema.validate(x,S); assert len(x['title'])<=80,x['title']
print(len(P))
