// Analysis stand-in for the Emscripten SDK.
#ifndef VSA_EMSCRIPTEN_H
#define VSA_EMSCRIPTEN_H
#define EMSCRIPTEN_KEEPALIVE __attribute__((used))
#endif
