// Explicit instantiations of the utility templates.
#include "lightspeed/utils/base16.h"
#include "lightspeed/utils/base32.h"
#include "lightspeed/utils/base64.h"
#include "lightspeed/utils/base64.tcc"
#include "lightspeed/utils/base85.h"
#include "lightspeed/utils/urlencode.h"
#include "lightspeed/utils/lzw.h"
#include "lightspeed/utils/lzw.tcc"
#include "lightspeed/utils/crc32.h"
#include "lightspeed/utils/md5iter.h"
#include "lightspeed/utils/configParser.h"
#include "lightspeed/utils/configParser.tcc"
#include "lightspeed/utils/queryParser.h"
#include "lightspeed/utils/xmlparser.h"
#include "lightspeed/utils/eventdb.h"
#include "lightspeed/utils/FilePath.h"
#include "lightspeed/utils/FilePath.tcc"
#include "lightspeed/utils/json.h"
#include "lightspeed/utils/json/json.h"
#include "lightspeed/utils/json/jsonparser.tcc"
#include "lightspeed/utils/json/jsonserializer.tcc"
#include "lightspeed/utils/json/jsonbuilder.h"
#include "lightspeed/utils/json/jsonimpl.h"
#include "lightspeed/utils/json/binjson.h"
using namespace LightSpeed;
template class LightSpeed::LZWCompressBase<LZWCompress>;
template class LightSpeed::LZWDecompressBase<LZWDecompress>;
template class LightSpeed::LZWCompressBase<LZWpCompress>;
template class LightSpeed::LZWDecompressBase<LZWpDecompress>;
template class LightSpeed::JSON::StreamParser<SeqFileInput>;
