D1 = ["il/container/1d/Array.h", "il/container/1d/SmallArray.h", "il/container/1d/StaticArray.h", "il/container/1d/ArrayView.h"]
prop("A01", "One-dimensional element access is exact and checked",
     "In a build with expectations enabled, reading or writing position i of a one-dimensional array, static array, small array or view reaches exactly the i-th element when i is in range. Any other position aborts before memory is touched. First/last-element access and the iterator range [begin, end) denote exactly the elements in order, for every size including zero.",
     ["inputs", "histories"], "every container state (null, heap, inline, aligned; any size and capacity) and every 64-bit index",
     "tests index a handful of small arrays; the guarantee is over every size, capacity, storage representation and out-of-range index, including negative ones",
     D1, [("operator[] with IL_EXPECT_MEDIUM", "il/container/1d/Array.h"), ("back/Back, begin/end", "il/container/1d/Array.h")], ["operator[]", "back", "Back", "begin", "end", "data"])
prop("A02", "Construction, resize and reserve give the size and contents promised",
     "Constructing or resizing a one-dimensional container to n elements yields exactly n live elements: the old prefix is preserved in order and the new positions hold the given or default value. Reserving r leaves size and contents unchanged and makes the capacity at least r. This holds for every combination of old size, old capacity, requested size and storage representation, also when the fill value is an element of the container itself.",
     ["inputs", "histories"], "all old sizes, capacities, requested sizes n >= 0, element types with and without constructors, aligned and unaligned storage",
     "tests use fixed sizes near 3-5; growth inside capacity, growth past it, shrinking and self-referencing fill values each take a different path for every size relation",
     D1, [("Resize/IncreaseCapacity", "il/container/1d/Array.h"), ("Resize/IncreaseCapacity", "il/container/1d/SmallArray.h")], ["constructors", "Resize", "Reserve", "Set"])
prop("A03", "Appending keeps every element and adds the value at the end",
     "After appending a value the container has one more element, all previous elements are unchanged and in order, and the last one equals the value that was passed, also when that value is an element of the same container and the storage has to grow.",
     ["inputs", "histories"], "every size and capacity, copy, move and in-place construction, aliased and non-aliased arguments",
     "an aliasing argument only fails at the sizes where the storage grows and only if the released block is reused",
     D1[:2], [("Append overloads", "il/container/1d/Array.h"), ("Append overloads", "il/container/1d/SmallArray.h")], ["Append", "size", "operator[]"])
prop("C01", "Copies are equal to their source and independent of it",
     "Copy construction and copy assignment of any container give the target exactly the source's extents and elements whatever the target held before. The source is unchanged, the two share no storage, and assigning a container to itself changes nothing.",
     ["inputs", "histories"], "all pairs of source and target states, all sizes and capacities, trivial and class element types",
     "the assignment operator takes a different path for each relation between source size, target size and target capacity; tests sample two or three",
     D1, [("copy constructors and copy assignment", "il/container/1d/Array.h")], ["operator=", "copy constructors"])
prop("C02", "Moves transfer the contents and leave an empty, usable source",
     "Move construction and move assignment of any container give the target exactly what the source held and leave the source empty and safe to destroy or reuse. The target's previous contents are released, and moving a container onto itself keeps it intact.",
     ["inputs", "histories"], "all pairs of source and target states, inline and heap storage",
     "a broken moved-from state is only visible when both objects are later destroyed or reused, for particular storage combinations",
     D1, [("move constructors and move assignment", "il/container/1d/Array.h")], ["operator=", "move constructors"])
prop("L01", "Element lifetimes and storage of 1-D containers are balanced",
     "Every operation of a one-dimensional container constructs each element exactly once before it is used and destroys it exactly once, never reads, writes or assigns outside live elements and allocated storage, and releases every block it allocates exactly once.",
     ["inputs", "histories"], "every operation of the one-dimensional containers from every reachable container state, for trivial and class element types",
     "lifetime mistakes depend on the relation of sizes and capacities and are invisible without instrumentation; the suite counts destructors in a few fixed scenarios",
     D1 + ["il/core/memory/allocate.h"], [("allocateArray/deallocate", "il/core/memory/allocate.h"), ("placement new and explicit destructor calls", "il/container/1d/Array.h")], ["all members"])
prop("V01", "Views reach exactly the sub-range they were made from",
     "A view or editable view of a container or of a sub-range of it exposes exactly the requested elements in order, without copying, and position i of the view is position i of the sub-range in the container. Indexes outside the view and ranges outside the container abort in a build with expectations enabled.",
     ["inputs"], "every container state, every sub-range and index",
     "the tests take a few views of small arrays; strides and offsets matter for every capacity and sub-range",
     D1, [("view/Edit and ArrayView::operator[]", "il/container/1d/ArrayView.h")], ["view", "Edit", "operator[]"])
DN = ["il/container/2d/Array2D.h", "il/container/2d/Array2C.h", "il/container/3d/Array3D.h", "il/container/3d/Array3C.h", "il/container/4d/Array4D.h", "il/container/4d/Array4C.h"]
DS = ["il/container/2d/StaticArray2D.h", "il/container/2d/StaticArray2C.h", "il/container/3d/StaticArray3D.h", "il/container/4d/StaticArray4D.h"]
prop("A05", "An aligned array keeps its alignment",
     "A non-empty array built with an alignment reports that alignment, and its storage starts at a multiple of it, or at the requested remainder modulo the requested modulus. Resizing, reserving and appending keep this for the storage they move to, and copying, moving and assigning give the target the alignment of the source, for one-dimensional and multi-dimensional arrays of every size.",
     ["inputs", "histories"], "every size, capacity and address of the storage; aligned and unaligned sources and targets; element types of power-of-two size",
     "unaligned storage usually happens to be aligned anyway when it is allocated by malloc, so no test can see an alignment that was lost",
     [D1[0], "il/container/2d/Array2D.h", "il/container/3d/Array3D.h", "il/container/4d/Array4D.h", "il/core/memory/allocate.h"], [("constructors with il::align", "il/container/1d/Array.h"), ("allocateArray with alignment", "il/core/memory/allocate.h")], ["constructors", "operator=", "Resize", "Reserve", "Append", "alignment"])
prop("A06", "Multi-dimensional construct, resize, reserve keep their promised contents",
     "Constructing or resizing a 2-D, 3-D or 4-D array (dynamic or static, column- or row-major) gives exactly the requested extents; elements whose indexes exist both before and after keep their value at the same indexes and every other element holds the given or default value. Reserving leaves extents and contents unchanged and makes each capacity at least the reserved amount. This holds for every combination of old extents, old capacities and new extents.",
     ["inputs", "histories"], "all old extents and capacities, all new extents >= 0 including zero in some directions, trivial and class element types, aligned and unaligned storage",
     "the code has one path per combination of growing/shrinking directions and of exceeded capacities; tests visit a few of them with fixed extents",
     DN + DS, [("Resize/Reserve/constructors", "il/container/2d/Array2D.h"), ("Resize", "il/container/2d/Array2C.h"), ("Resize", "il/container/3d/Array3D.h")], ["constructors", "Resize", "Reserve", "Set"])
prop("C03", "Copies of multi-dimensional arrays equal their source",
     "Copy construction and copy assignment of 2-D, 3-D and 4-D arrays give the target the source's extents and elements whatever extents and capacities the target had. The source is unchanged, no storage is shared, and self-assignment changes nothing.",
     ["inputs", "histories"], "all pairs of source and target extents and capacities, padded leading dimensions included",
     "a capacity larger than the extents, or a target with other capacities, selects code paths the tests do not reach",
     DN + DS, [("copy constructor and operator=", "il/container/2d/Array2D.h"), ("copy constructor and operator=", "il/container/3d/Array3D.h")], ["operator=", "copy constructors"])
prop("C04", "Moves of multi-dimensional arrays leave an empty, usable source",
     "Move construction and move assignment of 2-D, 3-D and 4-D arrays give the target exactly what the source held and leave the source empty with all extents zero and safe to destroy. The target's previous storage is released and moving an array onto itself keeps it intact.",
     ["inputs", "histories"], "all pairs of source and target states",
     "a broken moved-from state shows only when both objects are later used or destroyed",
     DN, [("move constructor and operator=", "il/container/2d/Array2D.h"), ("move constructor and operator=", "il/container/4d/Array4D.h")], ["operator=", "move constructors"])
prop("M01", "Multi-dimensional element access follows the documented layout",
     "Access to element (i0, ..., ik) of a 2-D, 3-D or 4-D array reaches that element and no other, at the position given by the documented column-major or row-major layout and the published strides or capacities, for every extent and capacity. Any index outside the extents aborts before memory is touched in a build with expectations enabled, and so does asking for the size of a dimension the array does not have.",
     ["inputs"], "every extents/capacities pair and every tuple of 64-bit indexes",
     "mixed-up strides are invisible for square or unpadded arrays, which is what tests use",
     DN + DS, [("operator()", "il/container/2d/Array2D.h"), ("stride/data(col)", "il/container/2d/Array2D.h"), ("operator()", "il/container/3d/Array3D.h")], ["operator()", "stride", "data", "size"])
prop("V02", "Multi-dimensional views reach exactly the block they denote",
     "A 2-D or 3-D view or editable view of an array, of a block of it, of one of its columns or rows, or of caller memory with a given stride exposes exactly the elements of that block, also when views are taken of views. Indexes outside the view and blocks outside the array abort in a build with expectations enabled, and copying between views changes only the elements of the destination view.",
     ["inputs"], "every extents, capacity, stride, nested sub-range and index",
     "a wrong stride or offset agrees with the right one for unpadded arrays and ranges that start at zero",
     ["il/container/2d/Array2DView.h", "il/container/2d/Array2CView.h", "il/container/3d/Array3DView.h", "il/container/2d/Array2D.h", "il/container/2d/Array2C.h"], [("view/Edit", "il/container/2d/Array2DView.h"), ("view/Edit", "il/container/2d/Array2CView.h")], ["view", "Edit", "operator()", "copy"])
prop("L02", "Element lifetimes and storage of multi-dimensional arrays are balanced",
     "Every operation of a 2-D, 3-D or 4-D array constructs each element exactly once before use and destroys it exactly once, never touches memory outside live elements and allocated storage, and releases every block it allocates exactly once.",
     ["inputs", "histories"], "every operation from every reachable state, trivial and class element types",
     "lifetime mistakes depend on the relation of old and new extents and capacities and are invisible without instrumentation",
     DN + DS + ["il/core/memory/allocate.h"], [("allocation, placement new and destructor loops", "il/container/2d/Array2D.h"), ("allocation", "il/core/memory/allocate.h")], ["all members"])

DB = ["il/linearAlgebra/dense/blas/blas.h", "il/linearAlgebra/dense/blas/dot.h"]
prop("B01", "il::blas and il::dot compute the documented product for every layout",
     "Every dense il::blas and il::dot overload on views performs exactly the operation it documents (the transposition or conjugation asked for, y <- alpha x + beta y, alpha A x + beta y, alpha A B + beta C) on exactly its operands, whatever their shapes and strides, for the four scalar types and both storage orders. Operands whose sizes do not agree, or a result that overlaps an operand of a matrix product, abort when expectations are enabled, and operands that agree never do. Every argument handed to the BLAS library is legal and the library touches no memory outside the operands.",
     ["inputs", "configurations"], "all extents and strides, all transposition combinations, float, double and their complex types, column- and row-major operands",
     "square unpadded matrices, which tests use, hide a swapped extent, stride or transposition flag, and half of the overloads have no test at all",
     DB, [("cblas calls of il::blas", "il/linearAlgebra/dense/blas/blas.h"), ("scalar products", "il/linearAlgebra/dense/blas/dot.h")], ["il::blas", "il::dot"],
     note="The BLAS library itself is trusted through effect summaries (operation performed, argument legality, memory read and written); extents are below 2^27. The scalar product and matrix products on containers (dot.h) and the sums alpha X + beta Y are followed element by element for extents up to three.")

DL = ["il/linearAlgebra/dense/blas/solve.h", "il/linearAlgebra/dense/factorization/LU.h", "il/linearAlgebra/dense/factorization/linearSolve.h", "il/linearAlgebra/dense/factorization/luDecomposition.h", "il/linearAlgebra/dense/factorization/qrDecomposition.h", "il/linearAlgebra/dense/factorization/Eigen.h"]
prop("B02", "Linear solvers pose to LAPACK exactly the system they were given",
     "linearSolve, LU, luDecomposition, qrDecomposition, il::solve, il::solveRight and Eigen hand the library routine documented for the task exactly the elements of the matrix and right-hand side they were given, in the layout announced, whatever the extents and capacities, and return exactly the result of that routine; the determinant is the signed product of the diagonal. Operands whose sizes do not agree abort when expectations are enabled and operands that agree never do, and a failure reported by the library becomes an error status, never a result. The library touches no memory outside the operands and work arrays, and arguments that are not consumed keep their value.",
     ["inputs", "configurations"], "all extents and capacities; determinants up to order 3, band systems up to order 4, tridiagonal systems of order up to 4; success and failure of the library routine",
     "a wrong leading dimension or stride agrees with the right one for square unpadded matrices, and the tests solve only such systems",
     DL, [("LAPACKE calls", "il/linearAlgebra/dense/factorization/LU.h"), ("linearSolve overloads", "il/linearAlgebra/dense/factorization/linearSolve.h"), ("trsm calls", "il/linearAlgebra/dense/blas/solve.h")], ["il::linearSolve", "il::LU", "il::luDecomposition", "il::qrDecomposition", "il::solve", "il::Eigen"],
     note="LAPACK itself is trusted through effect summaries (what it reads, writes and returns in info); the numerical accuracy of the result is not decided. Cholesky, Householder and Singular do not compile and are left out.")

DH = ["il/container/hash/Map.h", "il/container/hash/MapArray.h", "il/container/hash/HashFunction.h", "il/core/math/safe_arithmetic.h"]
NH = "Tables of at most 8 buckets (operations that grow go up to 16), every content, every collision pattern, every hash function: buckets, hash values and keys are symbolic and the loops are followed bucket by bucket. Probe sequences in larger tables are not covered. il::Set does not compile and is left out."
prop("H01", "A Map returns for each key the value last stored and not erased",
     "After any sequence of Set, erase, Reserve, Rehash and Clear, searching a Map finds a key exactly when it was stored and not erased since, and the value found is the one stored last, whatever the keys' hash values and however many tombstones the table holds. The number of elements reported equals the number of keys found, operations on one key leave every other key and its value as they were, and the argument of Set may be a key or value of the map itself. An operation never loops for ever.",
     ["inputs", "histories"], "tables with every mix of live, erased and free buckets, every hash function and collision pattern; Set with copied, moved and literal arguments, erase, Reserve, Rehash, Clear, constructors, lookups",
     "a wrong probe, a tombstone reused wrongly or a miscounted table shows only for particular collision patterns after particular histories; the tests store a few words",
     DH, [("Set/search/searchCString/insertValidSpot", "il/container/hash/Map.h"), ("Grow/ReserveWithP/Rehash", "il/container/hash/Map.h")], ["Set", "search", "erase", "Reserve", "Rehash", "Clear", "valueForKey", "nbElements"], note=NH)
prop("H02", "Copies and moves of a Map hold the same elements and are independent",
     "Copying a Map gives a map that finds exactly the keys of the source with equal values, shares no storage with it, and leaves the source unchanged, whatever the target held before; assigning a map to itself changes nothing. Moving a Map transfers its elements and leaves the source empty and usable.",
     ["inputs", "histories"], "source and target tables of every content, with and without buckets",
     "assignment over a non-empty map, from a map without buckets, and to itself are paths the tests do not reach",
     DH[:1], [("copy/move constructors and assignment", "il/container/hash/Map.h")], ["operator=", "copy constructor", "move constructor"], note=NH)
prop("H03", "Iterating over a Map visits every element exactly once",
     "Walking a Map from spotBegin to spotEnd with next visits every stored element exactly once and nothing else: no free or erased bucket, whatever the table holds, and the walk over an empty map or a map without buckets ends at once.",
     ["inputs"], "tables of every mix of live, erased and free buckets",
     "erased buckets at the beginning or the end of the table and empty tables are the failing inputs",
     DH[:1], [("spotBegin/spotEnd/next", "il/container/hash/Map.h")], ["spotBegin", "spotEnd", "next"], note=NH)
prop("H04", "A MapArray keeps one entry per key, in insertion order",
     "A MapArray holds exactly one entry for each key that was stored, its value is the one stored last for that key, and walking it visits the entries in the order in which the keys were first stored. Searching finds a key exactly when it was stored, and copies and moves behave as those of the array and the map it is made of.",
     ["inputs", "histories"], "arrays and tables of every content at small sizes; Set with copied and moved arguments, list construction, lookups, iteration",
     "replacing the value of an existing key and lookups in a map without buckets are histories the tests do not contain",
     ["il/container/hash/MapArray.h", "il/container/hash/Map.h"], [("Set overloads", "il/container/hash/MapArray.h"), ("search/next", "il/container/hash/MapArray.h")], ["Set", "search", "next", "key", "value"], note=NH)
prop("D01", "A Deque holds its elements in order at both ends",
     "Pushing to the front or back of a Deque adds exactly that value at that end, popping removes exactly the element at that end, and every other element stays in place in the order, however the storage wraps around. The front, back and size are those of the sequence, and a deque that is new, reserved, copied, assigned or emptied is ready for use. Pushing onto a full deque and taking from an empty one abort when expectations are enabled.",
     ["inputs", "histories"], "every position of the front in storage of up to four elements, every number of elements",
     "no test uses the deque; wrap-around and growth when full are particular histories",
     ["il/container/deque/Deque.h"], [("PushFront/PushBack/PopFront/PopBack/Reserve", "il/container/deque/Deque.h")], ["PushFront", "PushBack", "PopFront", "PopBack", "front", "back", "size", "Reserve"],
     note="Storage of at most four elements, every front position and every number of elements.")
prop("L03", "Element lifetimes and storage of Map, MapArray and Deque are balanced",
     "Every operation of the hash containers and of the deque constructs each key and value exactly once before it is used and destroys it exactly once, never touches a bucket that is outside the table or already released, never reads a key or value that is not alive, and releases every block it allocates exactly once.",
     ["inputs", "histories"], "every operation of H01 to H04 and D01, with key and value types that own resources",
     "lifetime mistakes in reused buckets depend on the history of the bucket and are invisible without instrumentation",
     DH[:2] + ["il/container/deque/Deque.h"], [("placement new and explicit destructor calls", "il/container/hash/Map.h")], ["all members"], note=NH)

DX = ["il/container/string/String.h", "il/container/string/UTF16String.h", "il/container/string/algorithmString.h", "il/container/string/unicode.h"]
NX = "Lengths up to six and all bytes: the characters are symbolic and the loops are followed character by character. Longer texts are not covered by the searching and comparing operations."
prop("X01", "Editing a String gives exactly the requested text",
     "Constructing, assigning, moving, appending to, inserting into, joining, clearing or taking a part of il::String gives exactly the characters the operation denotes, followed by a null character, with the right length and the type of the combined text. This holds for every length, inline or on the heap, for every capacity, and when the argument is a part of the string itself; positions outside the string abort when expectations are enabled. Views of a string or of caller text denote exactly the requested characters.",
     ["inputs", "histories"], "every length and capacity, inline and heap storage on both sides, aliased arguments, every string type",
     "each operation takes a different path at the inline limit and at the capacity; tests use a few short texts",
     DX[:1], [("Append/Insert/Grow/SetInvariant", "il/container/string/String.h"), ("substring/subview/join", "il/container/string/String.h")], ["constructors", "operator=", "Append", "Insert", "Reserve", "Clear", "substring", "subview", "join", "StringView"])
prop("X02", "Searching, comparing and classifying text is exact",
     "Searching a String or a view returns the first position of the text searched for and -1 when there is none; counting, prefix, suffix and equality tests answer exactly for the characters of their operands, whether given as string, view or C string. The character tests and scans of a view (digit, space, hexadecimal digit, new line, next occurrence, trimming) answer for exactly the characters of the view, and positions outside it abort when expectations are enabled.",
     ["inputs"], "every text of up to six characters and every byte value, texts searched for of up to three",
     "a wrong bound or a comparison that stops early only shows for prefixes, overlaps, empty operands and matches at the very end",
     [DX[0], DX[2]], [("search/count/startsWith/endsWith/isEqual", "il/container/string/String.h"), ("StringView::has*/next*/trimPrefix", "il/container/string/String.h")], ["search", "count", "startsWith", "endsWith", "isEqual", "operator==", "hasDigit", "nextChar", "trimPrefix"], note=NX)
prop("X03", "Editing a UTF16String gives exactly the requested text",
     "Constructing, copying, assigning, moving, reserving and appending ASCII characters or another UTF16String to il::UTF16String gives exactly the code units the operation denotes, followed by a null unit, with the right length and a capacity no smaller than asked for. This holds for every length and capacity, inline or on the heap, and when a string is appended or assigned to itself.",
     ["inputs", "histories"], "every length and capacity, inline and heap storage on both sides, aliased arguments",
     "the inline limit, the growth path and self-assignment are specific combinations the tests do not visit",
     DX[1:2], [("Append/Reserve", "il/container/string/UTF16String.h")], ["constructors", "operator=", "Append", "Reserve", "size"])
prop("X04", "Runes and integers convert to and from text exactly",
     "Appending a rune once or n times to a String or a UTF16String adds exactly its UTF-8 or UTF-16 encoding, and numbers that are not Unicode scalar values abort when expectations are enabled; rune, nextRune and isRuneBoundary decode every well-formed text exactly. toUtf16 and toUtf8 convert well-formed text without losing or adding anything, and il::toString of an integer is its decimal text for every 64-bit value.",
     ["inputs"], "every Unicode scalar value, texts of up to two runes for the conversions, every kind of neighbouring rune, storage on both sides of the inline limit",
     "each encoding length has its own code; the tests use one rune of some of them",
     DX, [("Append(int)/rune/nextRune", "il/container/string/String.h"), ("Append(int)/rune/nextRune", "il/container/string/UTF16String.h"), ("toUtf16/toUtf8", "il/container/string/unicode.h"), ("toString", "il/container/string/algorithmString.h")], ["Append", "rune", "nextRune", "isRuneBoundary", "toUtf16", "toUtf8", "toString", "isRune"],
     note="snprintf is trusted through an effect summary. Conversions cover texts of up to two runes; decoding of malformed text is not specified.")
prop("H05", "Hash functions agree with equality and keep their markers apart",
     "For the integer and string keys of the hash containers, equal keys have the same hash, whether the key is a string stored inline or on the heap, a character range or a literal, and every hash is a valid bucket number for the given table size. Key equality is exact, the markers of empty and of erased buckets are recognised as such and as nothing else, and no valid key is taken for a marker.",
     ["inputs", "configurations"], "every string length and type, inline and heap strings, integer keys, a range of table sizes",
     "a marker that collides with one string type, or a hash that differs between representations, loses keys only for particular strings",
     ["il/container/hash/HashFunction.h", "il/container/string/String.h"], [("HashFunction specialisations", "il/container/hash/HashFunction.h")], ["hash", "isEqual", "isEmpty", "isTombstone", "constructEmpty", "constructTombstone"],
     note="Hash agreement and equality are decided for texts of up to five characters, table sizes 2^1 to 2^30 (2^40 for integers).")
prop("L04", "Strings never leak, overrun or read released storage",
     "Every operation of il::String, il::StringView and il::UTF16String stays inside the storage of its operands, never reads storage that was released or never written, and releases every block it allocates exactly once, whatever the lengths, capacities and storage kinds and also when an operand is part of the string being changed.",
     ["inputs", "histories"], "every operation of X01 to X04 and H05 from every well-formed state",
     "an overrun by one at the inline limit or a block lost on assignment is invisible without instrumentation",
     DX + ["il/core/memory/allocate.h"], [("inline and heap representation", "il/container/string/String.h"), ("inline and heap representation", "il/container/string/UTF16String.h")], ["all members"])

prop("N01", "Checked integer arithmetic is exact or reports an error",
     "For every pair of operands safeSum, safeDifference, safeProduct and safeDivision return the exact mathematical result and clear the error flag when that result fits the type, and set the error flag otherwise, for int, long, long long and their unsigned variants. Products of three and four factors never report success with a wrong value and report an error only when the product or a partial product does not fit; safeUpperRound gives the smallest multiple not below its argument, safeConvert the same number in the other type. None of them executes an undefined operation.",
     ["inputs", "configurations"], "all operand values of every overload; the portable code and the compiler-builtin code",
     "the interesting operands are a few boundary values out of 2^64 pairs, in six integer types and two build configurations",
     ["il/core/math/safe_arithmetic.h"], [("safeSum/safeDifference/safeProduct/safeDivision/safeUpperRound/safeConvert", "il/core/math/safe_arithmetic.h")],
     ["safeSum", "safeDifference", "safeProduct", "safeDivision", "safeUpperRound", "safeConvert"],
     tech="abstract interpretation of the integer code in a domain of polynomial inequalities (exact machine arithmetic, Farkas certificates)",
     note="Every path of every overload, exact machine semantics; trusts clang's front end and the analysis in /verif/rules/polypath.py.")

NR = "Floating-point code is judged as the real-number function it denotes (operation order and rounding are free); NaN and overflow are left out."
prop("B03", "Fixed-size algebra and norms compute the documented formulas",
     "The matrix, vector, dot and cross products on static arrays and matrices (with transposition or conjugation where asked) give in every element exactly the value of the defining formula of the elements of their operands, whatever the extents. il::norm of a vector, weighted vector, static vector, matrix or tridiagonal matrix returns the named norm of exactly its elements, including empty operands. Operands whose sizes do not agree abort when expectations are enabled, and the operands keep their value.",
     ["inputs", "configurations"], "all real element values; static extents up to 3 and vectors and matrices of up to 4 elements per side, every norm and every overload",
     "a swapped index pair or a skipped element is invisible for symmetric or sorted inputs; most overloads have no test",
     ["il/linearAlgebra/dense/blas/blas_static.h", "il/linearAlgebra/dense/blas/dot.h", "il/linearAlgebra/dense/blas/cross.h", "il/linearAlgebra/dense/norm.h"],
     [("static products", "il/linearAlgebra/dense/blas/blas_static.h"), ("norm overloads", "il/linearAlgebra/dense/norm.h")], ["il::dot", "il::cross", "il::blas", "il::norm"],
     tech="abstract interpretation of the instantiated functions with results normalised to polynomials over the reals", note=NR)
prop("G01", "Array algorithms return the true extremum, statistic, order or position",
     "il::min, max, minMax, maxAbs, indexMin, indexMax and indexMaxAbs return the exact extremum (or the first position holding it) of the whole array or of the given range, and mean and variance the value of their defining formula. il::sort leaves the same values in non-decreasing order and the copying forms leave their argument unchanged; il::binarySearch in a sorted array returns a position holding the value exactly when there is one. Empty arrays and invalid ranges abort when expectations are enabled.",
     ["inputs"], "all real and integer element values, arrays of up to 4 elements completely and of 16 to 19 elements for chosen patterns of the sort",
     "a wrong seed value, comparison or bound only shows for particular orders, signs and ranges of the elements",
     ["il/algorithm/algorithmArray.h"], [("min/max/minMax/sort/binarySearch", "il/algorithm/algorithmArray.h")], ["il::min", "il::max", "il::minMax", "il::maxAbs", "il::mean", "il::sort", "il::binarySearch"],
     tech="abstract interpretation of the instantiated functions with results normalised to polynomials over the reals", note=NR)

prop("U01", "Every header can be included alone, repeatedly and from several files",
     "Each public header of the library compiles when it is the first one a program includes, and including it a second time changes nothing. No header defines a function or an object with strong external linkage, so any number of translation units of one program may include any set of headers.",
     ["programs", "configurations"], "every header under il/ that the library offers and that needs no software missing here",
     "the unit tests are one program that includes a fixed set of headers in a fixed order; a missing include, guard or inline only shows in another program",
     ["il"], [("the headers", "il")], ["#include"],
     tech="compilation of every header to LLVM IR and a query over the linkage of each definition",
     note="Templates are checked as far as the compiler checks them without an instantiation. CUDA, benchmark and vendor-specific headers are left out; the headers that do not compile on the unchanged tree are known findings.")
prop("U02", "Expectations only observe",
     "The condition of every IL_EXPECT_FAST, IL_EXPECT_MEDIUM, IL_EXPECT_ACCURATE, IL_ENSURE or IL_ASSERT has no side effect, so that a program that satisfies its expectations behaves the same whether they are compiled in or not.",
     ["configurations"], "every use of an expectation macro in the library, compiled by the test build or not",
     "the tests run one build configuration; a condition that does work vanishes in the other one",
     ["il/core/core.h"], [("IL_EXPECT macros", "il/core/core.h")], ["IL_EXPECT_FAST", "IL_EXPECT_MEDIUM", "IL_EXPECT_ACCURATE"],
     tech="effect analysis over the source: every macro condition is tokenised and searched for assignments, increments, allocations, I/O and calls of mutating members",
     note="A call of a free function of the library in a condition is taken to be pure unless it is listed as having an effect.")
prop("R01", "Every path sets an il::Status once and reads it before it is set again",
     "A function that receives an il::Status to report through sets it to success or to an error on every path to its return, and never sets it again before it was read. A status obtained from a callee is examined (Ok, AbortOnError, IgnoreError) or handed on before it goes out of scope, and details are only attached to an error that is pending.",
     ["inputs", "fault_sequences"], "every path of every function of the library that owns or receives a status: toml, numpy, filepack, file and ppm input/output and the linear algebra drivers",
     "a status left unset or set twice aborts the program, but only on the error path that the tests never take",
     ["il/container/info/Status.h", "il/io"], [("status.SetOk/SetError/Ok", "il/io/toml/toml.h"), ("status.SetOk/SetError/Ok", "il/io/numpy/numpy.h")], ["il::Status", "il::load", "il::save", "il::LU", "il::Eigen"],
     tech="typestate analysis over the LLVM IR of every function that handles a status, path by path with summaries for callees",
     note="Data conditions are not interpreted except null tests, constants and the results of Ok, so every branch combination counts as a path; functions not instantiated by the drivers of the check are not seen.")
prop("R02", "Files are closed on every path and failed input or output is reported",
     "Every stream that the library opens is used only while it is open and is closed exactly once on every path, also after an error. A load or save whose open, read, write or close failed never sets its il::Status to success.",
     ["inputs", "fault_sequences"], "every path of the functions of the library that open or use a std::FILE: toml, numpy, filepack, il::File and ppm, with success and failure of every C input/output call",
     "leaks and unreported failures need a full disk, a truncated file or a syntax error at a particular place, and a leaked stream is invisible to an assertion",
     ["il/io", "il/io/File.h"], [("fopen/fread/fwrite/fclose", "il/io/toml/toml.h"), ("fopen/fread/fclose", "il/io/numpy/numpy.cpp"), ("File", "il/io/File.h")], ["il::load", "il::save", "il::File", "il::readPpm"],
     tech="typestate analysis over the LLVM IR of every function that handles a stream, path by path with summaries for callees",
     note="Formats are not interpreted: whether the bytes that were read or written are the right ones is not decided here.")
prop("R03", "il::Status reports the last outcome and detects misuse",
     "A status gives back exactly the success, the error value and the information (integers, doubles, source position) it was last set with, also after a move, and setting it again discards the old information. Reading a status that was not set, setting one that was not read and dropping one that was not read abort when expectations are enabled.",
     ["histories", "inputs"], "every history of up to four operations of the listed kinds, all stored values",
     "misuse is a matter of the order of calls; the tests check a few orders",
     ["il/container/info/Status.h"], [("il::Status", "il/container/info/Status.h")], ["il::Status"],
     tech="abstract interpretation of drivers over the LLVM IR with symbolic values")
prop("I01", "il::Info returns every value under the key it was stored with",
     "An il::Info returns under each key exactly the integer, double or string that was stored with it, tells the types apart and reports keys that were not stored (also prefixes and extensions of stored ones) as absent, for small and for allocated records. Copies are equal and independent, moves empty their source, clear empties the record, and no history leaks or overruns the storage.",
     ["histories", "inputs"], "histories of up to four records of every type in every order of growth, all 64-bit values, inline and heap representation",
     "records share one byte buffer, so a wrong length or a missed growth destroys a neighbour only for particular sizes",
     ["il/container/info/Info.h"], [("il::Info", "il/container/info/Info.h")], ["Set", "search", "found", "toInteger", "toDouble", "asCString", "isInteger", "clear"],
     tech="abstract interpretation of drivers over the LLVM IR with symbolic values and byte-precise memory")

prop("S01", "Triangular, band and tridiagonal matrices store what was written",
     "Every element of a LowerArray2D, UpperArray2D, BandArray2C or TriDiagonal matrix holds exactly the value last written to it, the writes to one element never change another, and reading or writing outside the stored part aborts when expectations are enabled. Copies and assignments, between matrices of any two sizes, make the target equal to and independent of the source, a move transfers the elements and leaves an empty source, and no history leaks, double frees or leaves the storage.",
     ["inputs", "histories"], "all element values, sizes 0 to 4 and every pair of sizes for assignments, copies and moves; symbolic positions inside and outside of the matrix",
     "packed offsets and the reuse of storage by an assignment are wrong only for particular pairs of sizes, and most of these types have no test",
     ["il/container/2d/LowerArray2D.h", "il/container/2d/UpperArray2D.h", "il/container/2d/BandArray2C.h", "il/container/2d/TriDiagonal.h"],
     [("LowerArray2D", "il/container/2d/LowerArray2D.h"), ("UpperArray2D", "il/container/2d/UpperArray2D.h"), ("BandArray2C", "il/container/2d/BandArray2C.h")], ["il::LowerArray2D", "il::UpperArray2D", "il::BandArray2C", "il::TriDiagonal"],
     tech="abstract interpretation of drivers over the LLVM IR with symbolic values and byte-precise memory")
prop("S02", "A sparse matrix is built from its positions and multiplies as a matrix",
     "A SparseMatrixCSR built from a list of positions holds one entry per distinct position, with the columns of each row in increasing order, and the returned index maps every given position to its entry; building from rows or from raw vectors keeps the given structure. Products alpha A x + beta y and the weighted infinity norm equal their defining sums over the stored entries; access to an element that is not stored and scaling vectors of the wrong size abort when expectations are enabled.",
     ["inputs", "histories"], "all element and scaling values; matrices up to 3 x 3 with up to 4 positions in any order, with repetitions and empty rows",
     "an order of positions, an empty row or a repeated position that no test has decides whether the counting and the sorting are right",
     ["il/container/2d/SparseMatrixCSR.h", "il/linearAlgebra/sparse/blas"],
     [("SparseMatrixCSR", "il/container/2d/SparseMatrixCSR.h")], ["il::SparseMatrixCSR", "il::blas", "il::norm"],
     tech="abstract interpretation of drivers over the LLVM IR with results normalised to polynomials over the reals", note=NR)
prop("T01", "A tree keeps its values, shape and parent-child relation",
     "A Tree returns for each node exactly the value last given to it, a node is empty exactly as long as it was given none, and the parent of child k of a node is that node, with distinct children for distinct (node, k). hasChild, children and depth describe exactly the nodes that exist, and asking for the parent of the root, for a child of a leaf or for adding a child with an invalid number aborts when expectations are enabled.",
     ["inputs", "histories"], "all values, trees with 2, 3 and 4 children per node of up to 3 levels in every shape (4 children: chosen shapes), in several orders of growth",
     "index formulas of an implicit tree are right for the root and wrong on the last level or for another number of children",
     ["il/container/tree"],
     [("il::Tree", "il/container/tree/Tree.h")], ["il::Tree"],
     tech="abstract interpretation of drivers over the LLVM IR with symbolic values")
prop("N02", "Powers, powers of two, absolute values and conjugates are exact",
     "il::ipow returns the N-th power for every exponent given at compile time or at run time and aborts for negative ones when expectations are enabled. previous_power_of_2, next_power_of_2 (32 and 64 bits) and nextLog2, next_log2_32 return the nearest power of two or its exponent for every argument whose answer exists. abs, real and conjugate of the scalar types and floor(a, b) for a >= 0 and b > 0 return their defining value.",
     ["inputs"], "all 32 and 64-bit arguments, all real values; exponents up to 20 (62 for powers of two); divisors 1, 2, 3, 7 and 16",
     "bit tricks that are right for small arguments lose the high bits, and a test takes a handful of arguments",
     ["il/math.h"], [("ipow, next_power_of_2_64, nextLog2, abs, floor", "il/math.h")], ["il::ipow", "il::nextLog2", "il::next_power_of_2_32", "il::previous_power_of_2_64", "il::abs", "il::conjugate", "il::floor"],
     tech="abstract interpretation of the functions over the LLVM IR with polynomial values, intervals and known bits", note=NR)
prop("D02", "A Dynamic keeps the type and the value it was given",
     "An il::Dynamic reports exactly the type of the value it was last given and returns exactly that value (scalars, strings, arrays, matrices, nested arrays and maps), and reading it as another type aborts when expectations are enabled. Copies are equal and independent at every level, a move transfers the value and leaves a void one, and every assignment, also of itself or of a part of its own content, replaces the value. No history leaks, double frees or reads released storage.",
     ["inputs", "histories"], "all scalar and character values; 31 kinds of contents in every construction, copy, move, modification and assignment, 15 x 15 kinds for assignments between values, containers of up to 3 elements and 3 levels",
     "a kind that one of the hand-written switches over the type forgets, or an assignment of a part of the own content, only fails for that kind",
     ["il/container/dynamic"], [("il::Dynamic", "il/container/dynamic/Dynamic.h"), ("typeId", "il/container/dynamic/Type.h")], ["il::Dynamic", "is", "as", "to", "As", "type"],
     tech="abstract interpretation of drivers over the LLVM IR with symbolic values and byte-precise memory",
     note="The small integer types can be stored but the library has no accessor for them; only their type is judged.")
prop("P01", "What is saved to a filepack or numpy file loads back equal",
     "A MapArray or Map of Dynamics saved as a filepack (booleans, integers, floating-point numbers, strings, Array<double>, Array2D of double or unsigned char, nested MapArrays, columns saved as an array of structures; non-empty keys) loads back with the same keys, types and values, as a MapArray in the same order. An Array or Array2D of int or double saved as a numpy file has the header and the data numpy defines and loads back equal, a numpy file of another type, rank, order or version, or one that is damaged or truncated in its header, makes the load report an error, and a SparseMatrixCSR loads from its three files.",
     ["inputs", "histories"], "all scalar, character and element values; every kind alone and with another one before or after it, containers of up to 3 levels, strings and keys of up to 300 characters, matrices up to 12 x 3, with and without reserved storage and alignment",
     "an element size, a length prefix or a stride that is wrong for one kind shifts everything after it in the file; the only tests of these formats save one matrix",
     ["il/io/filepack/filepack.h", "il/io/numpy", "il/io/io_base.h"], [("save/load of filepack", "il/io/filepack/filepack.h"), ("NumpyInfo, getNumpyInfo, saveNumpyInfo", "il/io/numpy/numpy.cpp")], ["il::save", "il::load"],
     tech="abstract interpretation of save followed by load over the LLVM IR, with the C stream functions modelled by a store in memory",
     note="The contents are symbolic, the shapes (kinds, sizes, key lengths) are enumerated up to the bounds given. The streams never fail here (failures: R01, R02).")
prop("P02", "A TOML document parses to what it spells and a wrong one is reported",
     "il::load of a TOML file (lines of any length, LF or CRLF) returns a MapArray with the keys in order of appearance, and for every key the integer (sign, underscores), floating-point number (fraction, exponent, underscores in the whole part), boolean, basic string with the escapes b t n f r quote and backslash, literal string, array (of values, arrays or inline tables, over several lines, with comments and a trailing comma), inline table, table, dotted table or array of tables it spells; keys may be bare, quoted or literal, comments and blank lines are ignored. A document with a missing key, equal sign or value, text after a value or a table, a duplicate key, a string, array, inline table or table that is not closed, an unknown escape, a malformed number or boolean, an array of mixed types, with misplaced commas or closed by something else, or a text that is not UTF-8 makes the load report an error with the line where it is, without aborting and without accessing memory it does not own.",
     ["inputs"], "all digits, letters and symbols in the places left unknown, for 271 documents that cover each construct of the grammar, each alone, before the end of the file, before a comment and with both line endings",
     "the suite parses a dozen correct documents; an off-by-one in the scanner shows only for one digit, one delimiter or at the end of the file",
     ["il/io/toml/toml.h", "il/io/toml/toml.cpp"], [("TomlParser::parseNumber, parseArray, parseInlineTable, parseTable, parseKey", "il/io/toml/toml.cpp")], ["il::load"],
     tech="abstract interpretation of il::load over the LLVM IR with symbolic characters, the C stream functions modelled by a store in memory",
     note="The shapes of the documents are enumerated, the characters in them are symbolic by class. Decimal conversion of floating-point numbers is the C library's: decided is which decimal is converted. Memory errors the reader makes on a shape that is not enumerated are outside.")
prop("P03", "What is saved to a TOML file loads back equal",
     "A MapArray or Map of Dynamics saved as a TOML file and loaded again gives the same keys and values: booleans, integers, finite doubles (printed with at least 17 significant digits), strings and keys with any characters a line can hold (quotes, backslashes and the control characters that have an escape included), Array<double>, Array2D<double> as array of rows, arrays of Dynamics of one type and their nestings, and nested MapArrays or Maps to any depth, wherever they stand among the values of their table.",
     ["inputs", "histories"], "all values of scalars and doubles, digits and characters symbolic or one of each class; every kind alone and before or after another one, tables of up to 3 levels",
     "what a writer gets wrong (a missing escape, a value written below the wrong table header, too few digits) still parses; the suite never loads what it saved",
     ["il/io/toml/toml.h", "il/io/toml/toml.cpp", "il/io/io_base.h"], [("save_aux, save_array, SaveHelperToml", "il/io/toml/toml.h"), ("TomlParser", "il/io/toml/toml.cpp")], ["il::save", "il::load"],
     tech="abstract interpretation of save followed by load over the LLVM IR, with the C stream and printing functions modelled by a store in memory",
     note="std::fprintf is modelled: integers are spelled, the k-th double printed is a token that names it, and a format of fewer than 17 significant digits is reported, since such a decimal does not name a double. The streams never fail (failures: R01, R02).")
prop("P04", "il::File and readPpm give the bytes of the file, or an error",
     "Reads and skips of an il::File, of any sizes and in any order and through a buffer of any size, give consecutive bytes of the file and write nothing else; a read reports an error exactly when fewer bytes are left than asked for, and what is written is what the file contains. il::readPpm gives the size and the pixels of a binary PPM image whose first line is P6 (comments may follow it) and whose last header line ends with the depth 255; it ends with an error on a missing or truncated file, another format or depth, or a negative size, and the file is closed in every case.",
     ["inputs", "histories"], "every history of 3 operations out of 7 (reads of bytes, of objects and of typed objects, skips) for 7 buffer sizes and files of 0 to 12 bytes; unknown bytes for seven ways to cut a file; images up to 3 x 3 and every truncation of one",
     "whether a read is served from the buffer, crosses its end, or falls back at the end of the file depends on the sizes of all reads before it; the suite has no test of File or readPpm",
     ["il/io/File.h", "il/io/ppm/ppm.h"], [("File::Read, Skip, Write, Close", "il/io/File.h"), ("readPpm", "il/io/ppm/ppm.h")], ["il::File", "il::readPpm"],
     tech="abstract interpretation of enumerated histories over the LLVM IR, with the C stream functions modelled by a store in memory",
     note="The streams of the C library are modelled and never fail except at the end of the file. A header that puts the size on the line of P6 is outside the statement.")
prop("K02", "il::Cg and il::Gmres serve every request of MKL and report the outcome",
     "Whatever requests MKL's conjugate gradient and GMRES routines make, il::Cg and il::Gmres answer each of them with the operator or the preconditioner applied to the vector the request names, put where the request asks for it. Solve stops at the first iterate whose residual meets the tolerance, or at the maximum number of iterations; it reports success exactly when the iterate it gives meets the tolerance (or GMRES found a vector of norm zero), and gives that iterate and the number of iterations. Next makes exactly one iteration, after which the norm of the residual and the iterate can be read.",
     ["inputs", "histories"], "scripts of up to three iterations out of five orders of requests, with and without preconditioner, right-hand sides unknown for Cg; every way to stop (tolerance met exactly, just, at zero, from above or below; maximum reached, reached on the last iterate; null vector)",
     "the tests solve a few systems with the installed MKL, which makes its requests in one order, and converge long before the maximum number of iterations",
     ["il/linearAlgebra/matrixFree/solver/Cg.h", "il/linearAlgebra/matrixFree/solver/Gmres.h"], [("Cg::Solve, Cg::Next", "il/linearAlgebra/matrixFree/solver/Cg.h"), ("Gmres::Solve, Gmres::Next", "il/linearAlgebra/matrixFree/solver/Gmres.h")], ["il::Cg", "il::Gmres"],
     tech="abstract interpretation of enumerated request scripts over the LLVM IR, with the routines of MKL stood in for by the script",
     note="What MKL computes is not analysed (E01): the routines of MKL are stood in for by their documented interface. Systems have three unknowns.")
na("E01", "The iterative and direct solvers return accurate solutions",
   "il::Gmres, il::Cg, il::Pardiso and the dense factorisations return a solution whose residual is within the requested or documented precision whenever they report success.",
   ["inputs"], "every well-conditioned system and every right-hand side", "a test solves a few systems", ["il/linearAlgebra/matrixFree", "il/linearAlgebra/sparse/factorization", "il/linearAlgebra/dense/factorization"],
   [("Solve", "il/linearAlgebra/matrixFree/solver/Gmres.h")], ["il::Gmres", "il::Cg", "il::Pardiso"],
   "a bound on the residual is a statement about rounding and convergence of an iteration (in MKL for most of them) over all matrices; no static argument in reach bounds it. What can be decided statically, that the right operation is handed to LAPACK with legal arguments, is B02")
na("E02", "Random numbers and quasi-random sequences have the promised distribution",
   "The generators of il/random return independent values of the requested distribution, and a Sobol sequence has low discrepancy.",
   ["inputs"], "every seed and every number of draws", "a test looks at a few draws", ["il/random"], [("Sobol", "il/random/sobol.h")], ["il::random", "il::Sobol"],
   "a statistical statement about unbounded sequences; not a property a static analysis of the source can decide")
na("E03", "Containers cost the time and memory promised",
   "Appending to an array is amortised constant, hash tables answer in expected constant time, and no operation copies elements it does not have to.",
   ["histories"], "every history of operations", "timing is not tested", ["il/container"], [("growth policy", "il/container/1d/Array.h")], ["Append", "search", "Set"],
   "amortised and expected cost quantify over whole histories and hash distributions; the abstract interpreter decides contents and lifetimes of operations, not cost")
