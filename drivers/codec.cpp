// Instantiations of codecs, filters and formats.
#include "lightspeed/base/types.h"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/iter/iterConv.h"
#include "lightspeed/base/iter/iteratorFilter.tcc"
#include "lightspeed/base/iter/merge.h"
#include "lightspeed/base/iter/counters.h"
#include "lightspeed/base/iter/limiter.h"
#include "lightspeed/base/iter/vtiterator.h"
#include "lightspeed/base/streams/fileio.h"
#include "lightspeed/base/streams/fileiobuff.tcc"
#include "lightspeed/utils/base64.h"
#include "lightspeed/utils/FilePath.tcc"
#include "lightspeed/base/streams/memfile.tcc"
#include "lightspeed/base/streams/autoflush.h"
#include "lightspeed/base/memory/shareAlloc.h"
using namespace LightSpeed;
template class LightSpeed::Base64EncoderT<byte,char>;
template class LightSpeed::Base64DecoderT<char,byte>;
template class LightSpeed::HexEncoder<byte,char>;
template class LightSpeed::HexDecoder<char,byte>;
template class LightSpeed::FilePathT<>;
void use_b64() { ByteToBase64Convert c; Base64ToByteConvert d; }
