T = "contract-based deductive verification of the repository's C++ and Alusus library code, as the IR that clang / the repository's compiler emit for it (own VC generator with proved loop invariants; z3, cvc5)"
P = [
 dict(id="C08", title="C++ runtime arrays are values; elements live exactly once",
  statement="Every operation of the C++ runtime array (construct, copy, fill, assign, add, insert, remove, reserve, clear, find, element access) gives exactly the sequence of elements the operation means, for every length, capacity, index and argument. Changing one array, or writing through an element reference obtained from it, never changes, frees or shortens another array that shares its buffer, and assigning an array to itself keeps it. Element reads and writes stay inside the buffer, an index out of range gives no element of any array, every stored element is constructed once and destroyed once, and the buffer is released exactly when its last array goes away.",
  over=["inputs", "histories"],
  qtext="for every array state (no buffer, sole owner, buffer shared with any number of arrays), every length and capacity, every index and element value, every aliasing of the two arrays of an operation; elements of a plain type and of a class with arbitrary copy, assignment and destruction",
  why="The tests pass one small array through the C++ interface; sharing, capacity boundaries, out-of-range indices and element destruction are never combined, and memory errors in allocator slack stay invisible.",
  files=["Sources/Srt/Srl/Array.h"],
  state=[("refCount", "number of arrays that hold the buffer", "ArrayData"), ("length/bufSize/buf", "element count, capacity, elements", "ArrayData"), ("live elements", "slots that hold a constructed, not yet destroyed element", "ArrayData::buf")],
  mech=[("copy on write: _prepareToModify unshares or grows the buffer", "Array.h: _prepareToModify"), ("reference counting of buffers", "Array.h: assign, _release, ArrayData::alloc/realloc/release")],
  observe=["getLength, at, operator(), findPos, getBufSize of every array after every operation", "calls of the element's constructors, destructor, assignment and comparison", "allocation and release of buffers"],
  technique=T,
  note="Proof for Array<int> and Array of a class whose constructors, assignment, comparison and destructor are ghost contracts, over all lengths, capacities, indices, values and sharing/aliasing cases, of the IR clang emits from Array.h on every run. Assumes malloc succeeds below 2^46 bytes; trusts the VC generator, the solvers, clang's front end and the C library's contracts."),
 dict(id="C09", title="Shared references keep their object alive exactly as long as needed",
  statement="For shared, weak and unique references (SrdRef, WkRef, UnqRef, in C++ and in Alusus): the reference count of a managed object equals the number of shared references to it after every construction, copy, move, conversion, assignment, release and destruction. The object's terminator runs exactly once, when the last shared reference goes away and not before, its memory is freed once and only after that, and no operation touches it afterwards. Every reference designates exactly the object it was given, and weak references never keep an object alive. This also holds when a reference is assigned to itself, when two references designate the same object, and when the reference assigned lies inside the object being released.",
  over=["inputs", "histories"],
  qtext="for every state of the two references of an operation (null, without counter, sole or one of any number of holders, object in the counter's block or allocated apart), every object offset, every aliasing between them including one inside the other's object, every source type and value category of the overload set",
  why="Premature or missing termination shows only for particular combinations of count, aliasing and allocation style; use after free usually prints the right value in a test.",
  files=["Sources/Srt/Srl/refs.h", "Sources/Srt/Srl/refs_base.alusus"],
  state=[("count", "number of shared references to the managed object", "RefCounter"), ("refCounter/obj", "counter and object designated by a reference", "SrdRef, WkRef")],
  mech=[("counting in assign and release", "refs.h: SrdRef::assign, release, own, alloc; refs_base.alusus"), ("termination and freeing by the last reference", "refs.h: RefCounter::release")],
  observe=["counter, object and count after every operation", "calls of the terminator, allocation and release of memory"],
  technique=T,
  note="Proof over all listed states of every constructor, assignment overload and method of SrdRef/WkRef (C++ and Alusus) and UnqRef (Alusus), about 2,200 function/pre-state pairs. References inside managed objects are covered one level deep (the terminator contract releases one reference). Assumes malloc succeeds and counts stay below 2^31 - 8; reference cycles are out of scope. Trusts the VC generator, the solvers, clang's front end and, for Alusus, the repository's compiler as IR producer."),
 dict(id="C10", title="Literals denote exactly the value, type and text that is written",
  statement="Every literal in the source denotes exactly the value it spells. Integer literals in base 2, 8, 10 and 16, with Latin or Arabic prefixes and suffixes, have the value of their digits, the sign that is stated, and the stated size, or else the smallest size that represents the value; floating point literals have the stated size and the nearest value; a character literal is its character; a string literal is the text between its quotes, adjacent parts joined, with every escape sequence (\\n \\r \\t \\f \\\\ quotes, their Arabic forms, \\x \\h \\u \\U codes) replaced by the character it denotes, followed by one terminator, of a type with exactly that many characters. This holds for every number of digits, every length of text (up to the tokenizer's limit of 16000 characters) and every sequence of escapes.",
  over=["inputs"],
  qtext="for every well-formed literal: any number of digits, any value, any size suffix, string tokens of any length (up to 2^28 characters) with any sequence of plain characters and escapes",
  why="Tests print a few short literals; wrong results need a particular value at a size limit, a particular combination of prefix, sign suffix and size suffix, or a particular sequence of escapes and parts.",
  files=["Sources/Spp/CodeGen/ExpressionGenerator.cpp", "Sources/Core/Processing/Handlers/StringLiteralTokenizingHandler.cpp", "Sources/Spp/Ast/Helper.cpp", "Sources/Core/Basic/basic.cpp", "Sources/Spp/LlvmCodeGen/TargetGenerator.cpp"],
  mech=[("escapes and joined parts", "Processing/Handlers/StringLiteralTokenizingHandler.cpp: prepareToken, processChar; Basic/basic.cpp: parseHexDigit, parseHexDigits"), ("integer literals", "CodeGen/ExpressionGenerator.cpp: _generateIntegerLiteral; Ast/Helper.cpp: _getNeededIntSize, _getNeededWordSize"), ("float, character and string literals", "CodeGen/ExpressionGenerator.cpp: _generateFloatLiteral, _generateCharLiteral, _generateStringLiteral; LlvmCodeGen/TargetGenerator.cpp: generateIntLiteral, generateFloatLiteral, generateStringLiteral")],
  observe=["the constants in the emitted code", "value and type with which the target generator is called"],
  technique=T,
  note="Proof on the IR clang emits in this run from the repository's own C++ sources (string tokens, hexadecimal digits, needed sizes, integer, float, character and string literal generators), with proved loop invariants, for all texts. std::stoi/stof, the binding caches and the AST casts are assumed contracts. The target generator's constants are covered by a bounded task (about 1800 literals through the whole compiler), not counted as proof. One known finding: 64-bit float literals have single precision."),
]
