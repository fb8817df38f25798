NA = {}
TR = "Trusts: the reference model in mc/src, rustc, the tracking allocator of the harness."
c("W01", "model_checking", "stateless model checking of the real builder: all operation histories to a depth, allocation tracking as oracle",
  "Every history of the stated alphabet and depth is executed on the real code, abandoned, built and materialized, with the allocator recording every double free, leak and write after free. " + TR)
c("W02", "model_checking", "stateless model checking of the real builder against a reference model, all operation histories to a depth",
  "Result, value, and reported state compared with the model after every history of the stated alphabet and depth. " + TR)
c("W03", "model_checking", "exhaustive operation x state matrix over all builder states reached to a depth, against a reference model",
  "Every operation with every kind of argument is tried in every reached state. " + TR)
c("W04", "model_checking", "exhaustive enumeration of values x ways x orders of setting them, on the real builder",
  "All combinations over the small domains; invariants of nested types are outside the statement. " + TR)
c("W05", "model_checking", "exhaustive enumeration of destination types x boundary numbers, against an independent conversion",
  "All listed numbers and all half-integers up to 2^16 for every numeric type; other numbers are not covered. " + TR)
c("W06", "model_checking", "exhaustive enumeration of types x values x ways of building the value from its parts, on the real builder, compared with the native value; allocation tracking as oracle",
  "All values over the listed domains and all combinations of the listed ways; a way is applied to all parts of a value alike. " + TR)
c("W07", "model_checking", "stateless model checking of the builder: all histories to a depth, every error judged against the state of an abstract builder",
  "Depths and types are in the evidence; which of several missing fields is named, and the wording, are left free. " + TR)
c("C01", "model_checking", "exhaustive enumeration of types x ordered pairs of values x operations, each compared with the trait implementation the compiler resolves",
  "All pairs over the listed domains (all sequences up to length 3 over small alphabets for sequence types). " + TR)
c("K01", "model_checking", "exhaustive enumeration of types x values x reads through reflection, compared with the native value",
  "All values over the listed domains; composition depth two. " + TR)
c("K02", "model_checking", "exhaustive enumeration of types x ordered pairs of values x uses of the erased value, compared with the native values; allocation tracking as oracle",
  "All values over the listed domains. " + TR)
c("C02", "model_checking", "stateless model checking of container vtables: all operation sequences to a depth, in lockstep with the native container, allocation tracking as oracle",
  "Depths and element types are in the evidence. " + TR)
c("C03", "model_checking", "exhaustive enumeration of a bounded family of type definitions, each compiled with the derive and compared with the compiler's layout, read and built through the shape",
  "Only definitions in the family (its grammar is in bin/c03.rs). Trusts rustc's offset_of!, the generator's count of discriminants, and the harness.")
c("C04", "model_checking", "exhaustive enumeration of a bounded family of attribute and doc placements, each compiled with the derive and its shape compared with what was written",
  "Only programs in the family (its grammar is in bin/c04.rs). Several attributes in one #[facet(..)] are a known finding. Trusts rustc and the harness.")
c("C05", "model_checking", "exhaustive enumeration of all ordered pairs of types x values x typed reads, against the compiler's type identity and a grammar of names",
  "All pairs of the listed universe. Names of generic derived types are a known finding. Trusts rustc's TypeId and the harness.")
c("C06", "model_checking", "exhaustive enumeration of scalar types x bit patterns, each decoded as the shape describes and compared with the value",
  "All patterns of 8 and 16 bits (thorough: and of f32); of the wider types all runs of ones and their neighbours. Trusts the compiler's casts, number formatting and the harness.")
c("J01", "model_checking", "exhaustive enumeration of types x values x writer failures on the real serializer, text read back by an independent strict parser",
  "All values over the listed domains (every character, every string over special characters to a length, every 8/16-bit integer, number boundaries). " + TR)
c("J02", "model_checking", "exhaustive enumeration of types x values, each written and read back by the real code",
  "All values over the listed domains. " + TR)
c("J03", "model_checking", "exhaustive enumeration of input texts to a length over token, number and escape alphabets, of bounded documents and all their single mutations, against an independent parser and a type-directed reference",
  "Longer texts and combinations of several mutations are not covered. " + TR)
c("J04", "model_checking", "stateless model checking of the parser: all byte strings to a length over a JSON alphabet in many parser states, all single faults of valid documents, allocation tracking as oracle",
  "Lengths are in the evidence. Memory errors that neither corrupt the tracked heap nor crash are not seen. " + TR)
c("J05", "model_checking", "exhaustive enumeration of member sequences to a length over known, given and foreign names, at the root and in every nested place, against a type-directed reference",
  "Lengths are in the evidence. " + TR)
c("J06", "model_checking", "exhaustive enumeration of types x documents x single faults x places, the error compared with what an independent reader finds first at fault",
  "Single faults only; the place is checked to within the token at fault. " + TR)
c("E01", "model_checking", "exhaustive enumeration of types x documents x faults (and pairs of them), of form pair sequences and of byte strings, the error compared with the faults a reference finds",
  "In texts only the telling parts are looked for; which of several faults is named is left open except in MessagePack. " + TR)
c("M01", "model_checking", "exhaustive enumeration of types x values around every format boundary on the real encoder and decoder, against an independent writer and reader",
  "All 8/16-bit integers and boundary neighbours of the wider ones; all lengths around powers of two and ten to the bound in the evidence. " + TR)
c("M02", "model_checking", "stateless model checking of the decoder: all byte strings to a length over marker representatives, all bounded documents in every width and all their single faults, against an independent reader, allocation tracking as oracle",
  "Lengths are in the evidence. " + TR)
c("T01", "model_checking", "exhaustive enumeration of value trees x spellings, bounded trees, boundary numbers, token sequences to a length and all single mutations of bounded documents, against a type-directed reference",
  "The text of mutated documents is parsed by toml_edit for the reference too: the parser itself is the dependency's. Combinations of several mutations are not covered. " + TR)
c("Y01", "model_checking", "exhaustive enumeration of value trees x spellings, bounded trees, boundary numbers, token sequences to a length and all single mutations of bounded documents, against a type-directed reference",
  "The text of mutated documents is parsed by yaml-rust2 for the reference too: the parser itself is the dependency's. Combinations of several mutations are not covered. " + TR)
c("U01", "model_checking", "exhaustive enumeration of forms: sequences of pairs to a length over known, nested, malformed and unknown keys, orders, escapes and byte mutations, against a reference decoder written from the form encoding's rules",
  "Longer forms are not covered. " + TR)
c("A01", "model_checking", "exhaustive enumeration of argument vectors to a length over names, flags, aliases and values, of all orders and single mutations of full vectors, against a reference parser",
  "Longer vectors are not covered; refusals are panics, as documented. " + TR)
c("P01", "model_checking", "exhaustive enumeration of values of types with secrets in every position x all printer settings x contents of the secrets, comparing the runs with each other and counting the markers",
  "Deeper nesting than the enumerated types is not covered. " + TR)
c("P02", "model_checking", "exhaustive enumeration of values over small domains x all printer settings (and of all points where the writer fails), against a reference renderer",
  "Arrays, pointers and the contents of maps are not covered (the printer shows placeholders for them). " + TR)
c("P03", "model_checking", "exhaustive enumeration of hues x settings, hashes and bytes, against an independent colour conversion",
  "Whole-degree offsets are all there are; base hues, saturations and lightnesses are those listed. " + TR)
