// Stand-ins for the binding groups whose third-party libraries (libsndfile,
// kaldi-native-fbank, libjpeg/libpng, sentencepiece) are not available here.
#include "fairseq2n/bindings/module.h"
namespace fairseq2n {
void def_audio(pybind11::module_ &) {}
void def_image(pybind11::module_ &) {}
void def_sentencepiece(pybind11::module_ &) {}
}  // namespace fairseq2n
