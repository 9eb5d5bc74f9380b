T = "contract-based deductive verification of the IR that the repository's compiler emits for the library source (own VC generator with proved loop invariants; z3, cvc5)"
P = [
 dict(id="C06", title="Arrays are independent values; every operation has its exact sequence meaning",
  statement="Every operation on an Array (create, copy, assign, add, insert, set, remove, slice, find, clear, reserve, index) gives exactly the sequence of elements that the operation means, for every length, index and argument. Changing one array never changes, frees or shortens any other array, also when both were copied or assigned from one another. No operation reads or writes outside the storage of live arrays, frees storage twice, or loses storage.",
  over=["inputs", "histories"],
  qtext="for every representable array state (empty, sole owner of its buffer, buffer shared with any number of other arrays), every length and capacity, every index and element value, and every aliasing of the two arrays of an operation",
  why="The tests build a few short arrays; they never vary sharing, capacity boundary, index range and length independently, and cannot see out-of-bounds writes that land in allocator slack.",
  files=["Sources/Srt/Srl/Array.alusus", "Sources/Srt/Srl/Memory.alusus"],
  state=[("refCount", "number of arrays that hold the buffer", "ArrayData"), ("length/bufSize/buf", "element count, capacity, elements", "ArrayData")],
  mech=[("copy on write: _prepareToModify unshares or grows the buffer", "Array.alusus: _prepareToModify"), ("reference counting of buffers", "Array.alusus: assign, _release, ArrayData.alloc/realloc/release")],
  observe=["getLength, operator (), findPos, getBufSize of every array after every operation", "allocation and release of buffers"],
  technique=T,
  note="Proof for Array[Int] over all lengths, capacities, indices, values and sharing/aliasing cases, of the IR emitted from Array.alusus on every run. Assumes malloc succeeds below 2^46 bytes; trusts the VC generator, the solvers, the repository's compiler as IR producer and the C library's contracts. One known finding (element references into shared buffers)."),
 dict(id="C07", title="Array elements are constructed and terminated exactly once",
  statement="Every element stored in an Array of class objects is constructed before it is used and terminated exactly once, when it is removed or when the last array holding its buffer goes away. No operation reads, assigns, compares or terminates storage that holds no live element, and none overwrites or frees a live element without terminating it. The element values seen by every array are those the operations mean.",
  over=["inputs", "histories"],
  qtext="for every array state, length, capacity, index and aliasing of the arrays and element arguments, with elements whose copy, assignment and termination are arbitrary user code",
  why="Leaks, double terminations and reads of terminated elements are invisible to the tests' printed output, and depend on combinations of sharing, capacity and position that the tests do not enumerate.",
  files=["Sources/Srt/Srl/Array.alusus", "Sources/Spp/CodeGen/Generator.cpp", "Sources/Spp/CodeGen/CommandGenerator.cpp"],
  state=[("live elements", "storage cells that hold a constructed, not yet terminated element", "ArrayData.buf")],
  mech=[("element construction with ~init, termination with ~terminate", "Array.alusus: add, insert, remove, _prepareToModify; ArrayData.release"), ("parameter and temporary life-time in generated code", "CodeGen/Generator.cpp")],
  observe=["calls of the element class's ~init, ~terminate, assignment and comparison handlers", "element values after every operation"],
  technique=T,
  note="Proof with ghost liveness per element slot over all lengths, capacities, indices and sharing/aliasing cases. The element class is abstract: its handlers are contracts with ghost effects (they do not touch the array). Same trusted base as C06."),
]
