CLAIMS = {
 "C08": ("All 12289^2 pairs of every binary operation and all unary operands are executed; TLC checks every row of the tables (quick: a sample of rows exactly, all rows through the table twin).", ""),
 "C09": ("Linearity lets the N unit vectors determine the transform; random and extreme vectors and products are added.", ""),
 "C10": ("Exact reference is 75-bit fixed point; the double-precision tolerance is stated in T_FFT.tla.", "exhaustive model of the fixed-point operators"),
 "C15": ("Both preprocessor variants of the wide product are compiled and checked.", ""),
 "C04": ("The field and padding layout is model-checked on toy widths; the real encoder and decoder run over random, extreme and malformed keys, in an address-sanitized build as well.", "exhaustive model of the field codec on toy widths"),
 "C05": ("As C04, for every field of the secret key.", "exhaustive model of the field codec on toy widths"),
 "C06": ("The decoder automaton is model-checked exhaustively on toy sizes; TLC generates the malformed and exact-fit classes that are replayed in the real code.", "exhaustive model of the signature codec, generating the replayed scenarios"),
 "C07": ("The XOF is scripted, so rejection patterns of any rarity are played.", "exhaustive model of rejection sampling on a toy modulus"),
 "C11": ("Decisions that hinge on the last bits of a double are accepted either way (counted as ambiguous).", ""),
 "C13": ("Degrees 2..1024; degree 2 with small coefficients exhaustively.", ""),
 "C01": ("Sessions with corpus keys (32 + 16 trapdoors) and with key pairs the library generates; every signature is recomputed bit for bit from the bytes its generator handed out.", "bit-exact recomputation of whole signing runs by the specification"),
 "C12": ("Trees of random Gram matrices at every degree 2..1024 and of corpus trapdoors; the reference is 75-bit fixed point, draws that hinge on the last bits are counted as ambiguous.", ""),
 "C17": ("Corpus keys, skewed keys and keys from the lower-level generator.", ""),
 "C03": ("Candidates of every fate at their edges are scripted through the generator's bytes; natural runs added. Every key output is checked exactly over the integers.", "recomputation of the candidate sequence from the recorded bytes"),
 "C18": ("Rejected candidates of every kind (norm, compression; range, invertibility, both Gram-Schmidt terms, no solution, F out of range) are scripted in sequences.", "recomputation of every candidate's fate by the specification"),
 "C02": ("Honest, boundary-norm, overflowing-norm, mutated and malformed signatures under corpus keys and under structured public keys; also in an address-sanitized build between guard pages.", "exhaustive model of the acceptance predicate on a toy ring"),
 "C14": ("The operating system's entropy source is replaced by a recording stand-in; seeds, streams, salts over histories of keys and signatures, and which seed bytes influence the output.", "model of generators and salts with faults refuted"),
 "C16": ("Function-boundary yields follow schedules enumerated by TLC; free-running concurrency under ThreadSanitizer; every ordered pair of calls back to back.", "interleaving model with faults refuted, enumerating the replayed schedules"),
 "C19": ("Every byte and every pair of neighbouring bytes, every length to 200, both cases of the letters; also in an address-sanitized build.", "exhaustive model of the digit-wise writer and reader on a toy base"),
}
NA = {}
