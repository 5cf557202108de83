// Explicit instantiations of the stream templates.
#include "lightspeed/base/streams/fileio.h"
#include "lightspeed/base/streams/fileiobuff.tcc"
#include "lightspeed/base/streams/httpc.tcc"
#include "lightspeed/base/streams/netio.tcc"
#include "lightspeed/base/streams/netio.h"
#include "lightspeed/base/streams/memfile.tcc"
#include "lightspeed/base/streams/memfile.h"
#include "lightspeed/base/streams/random.h"
#include "lightspeed/base/streams/utf.tcc"
#include "lightspeed/base/streams/autoflush.h"
#include "lightspeed/base/streams/standardIO.tcc"
#include "lightspeed/base/containers/buffer.h"
#include "lightspeed/base/text/textstream.tcc"
#include "lightspeed/base/text/textParser.tcc"
#include "lightspeed/base/text/textFormat.tcc"
#include "lightspeed/base/text/textLineReader.h"
#include "lightspeed/base/text/toString.tcc"
#include "lightspeed/base/framework/proginstance.h"
#include "lightspeed/base/framework/TCPServer.h"
#include "lightspeed/base/framework/serviceapp.h"
using namespace LightSpeed;
template class LightSpeed::IOBuffer<4096>;
template class LightSpeed::MemFile<>;
template class LightSpeed::StringPool<char>;
struct OutFn { void operator()(const ConstBin &) const; };
struct InFn { int operator()() const; };
template class LightSpeed::HttpResponse<InFn>;
template class LightSpeed::HttpRequest<OutFn>;
