NA = {
    "C30": "the browser bindings are EM_ASM / Emscripten JavaScript glue: no Emscripten toolchain is installed, the headers do not compile without it, and what they do happens in JavaScript strings that no LLVM-level encoding of this code contains",
}
