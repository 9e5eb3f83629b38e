T = 'symbolic execution of the compiled C++ kernels (LLVM IR) with a SAT/SMT back end'
N = 'Bounded: holds for every value within the stated input sizes, window positions, alignments and CPU paths; nothing is claimed beyond them. Trusts clang 18 IR as a stand-in for the gcc build (sampled paths and every counterexample are replayed on the gcc build), the engine and its model of the x86 intrinsics, and MiniSat (cross-checked with Z3 on a sample of queries). '
CLAIMS = {
 'C01': dict(technique=T, note=N + 'Oracle: a character-level yEnc encoder written from the property text.'),
 'C02': dict(technique=T, note=N + 'The assertions are over the output text alone, without a reference encoder.'),
 'C03': dict(technique=T, note=N + 'The real encoder output is stuffed and fed to the real decoder; the oracle is the input itself.'),
 'C04': dict(technique=T, note=N + 'Oracle: a history-based reference decoder written from the property text.'),
 'C05': dict(technique=T, note=N + 'Oracle: a history-based reference decoder written from the property text.'),
 'C06': dict(technique=T, note=N + 'Decided both against the reference (returned state equals the state of the stream position) and as two runs of the real code, whole against split.'),
 'C07': dict(technique=T, note=N + 'Oracle: a history-based reference decoder with end detection written from the property text.'),
 'C08': dict(technique=T, note=N + 'Two runs of the real code, aliased and separate buffers, compared symbolically.'),
 'C10': dict(technique=T, note=N + 'The engine checks every load and store against the exact buffer bounds.'),
 'C11': dict(technique=T, note=N + 'Oracle: a bit-at-a-time CRC-32 division in the harness. Besides the x86 kernels and the portable code: AArch64 kernels and crcutil with its x86-64 assembler.'),
 'C12': dict(technique=T, note=N + 'Oracle: bit-at-a-time polynomial arithmetic over GF(2).'),
 'C13': dict(technique=T, note=N + 'Oracle: bit-at-a-time polynomial arithmetic over GF(2); n is a 32-bit int.'),
 'C14': dict(technique=T, note=N + 'Both operands fully symbolic. Oracle: schoolbook multiplication and reduction.'),
 'C15': dict(technique=T, note=N + 'Oracle: bit-at-a-time polynomial arithmetic over GF(2); n is a 32-bit int.'),
 'C09': dict(technique=T, note=N + 'Every load and store is checked against buffers of exactly the documented size.'),
 'C16': dict(technique=T, note=N + 'src/yencode.cc runs against stand-ins for the V8 and Buffer API; for sizes beyond what can be executed the kernels are replaced by recorders (if they turn out not to be in the way, those tasks say so and assert nothing).'),
 'C18': dict(technique=T, note='For every content of the CPU identification registers and XCR0 (no bound). Instruction sets of a function are the code generation attributes of the clang IR built with the per-file flags of binding.gyp. ARM and RISC-V dispatch is not encoded. Trusts the engine and its cpuid/xgetbv model.'),
 'C19': dict(technique=T, note=N + 'A frame condition: no store to an object that existed before the call; interference through anything but memory is out of scope.'),
}
CLAIMS['C25'] = dict(technique=T, note=N + 'src/yencode.cc runs against stand-ins for the V8 and Buffer API; the harness plays the garbage collector. Failing allocations are out of scope.')
TJ = 'symbolic execution of the real index.js (own interpreter for the parsed source; finite-domain constraints and Z3)'
NJ = 'Bounded: holds for every value within the stated sizes; nothing is claimed beyond them. Trusts the interpreter of /verif/jsym and its model of String, Array, RegExp and Buffer (sampled paths and every counterexample are replayed under node), acorn and Z3. The native module is a stand-in: arbitrary answers, recorded arguments. '
CLAIMS.update({
 'C17': dict(technique='symbolic execution of index.js (Z3 over integers and doubles) and of the compiled C++ encoder (SAT)', note=NJ + 'The lengths of real encodings are bounded by running the real encoder symbolically.'),
 'C20': dict(technique=TJ, note=NJ + 'Oracle: the state the stream position requires, from the last characters.'),
 'C21': dict(technique=TJ, note=NJ + 'Oracle: the article text built from the property text.'),
 'C22': dict(technique=TJ, note=NJ + 'Oracle: an independent account of parts and positions.'),
 'C23': dict(technique=TJ, note=NJ + 'Articles come from the real post and YEncoder; oracle for malformed ones: an independent reader of the header lines.'),
 'C24': dict(technique=TJ, note=NJ + 'Oracle: an independent reader of the header lines and an independent list of the documented inconsistencies.'),
})
NOT = {}
CLAIMS['C26'] = dict(technique=T, note=N + 'Every load and store is checked against the object bounds; loads of the data may reach the rest of the memory pages the data lies in (the folding kernels load whole aligned vectors).')
