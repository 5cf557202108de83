// Explicit instantiations of the promise templates.
#include "lightspeed/base/actions/promise.tcc"
#include "lightspeed/base/containers/string.h"
#include "lightspeed/base/actions/idispatcher.h"
#include "lightspeed/base/actions/idispatcher.tcc"
#include "lightspeed/base/actions/distributor.h"
#include "lightspeed/base/actions/distrubutor.tcc"
#include "lightspeed/base/actions/message.h"
#include "lightspeed/base/actions/msgQueue.h"
#include "lightspeed/base/actions/job.h"
#include "lightspeed/base/actions/queueExecutor.h"
#include "lightspeed/base/actions/parallelExecutor.h"
#include "lightspeed/base/actions/InfParallelExecutor.h"
#include "lightspeed/mt/dispatcher.h"
#include "lightspeed/mt/thread.h"
#include "lightspeed/mt/process.h"
#include "lightspeed/mt/apcthread.h"
#include "lightspeed/mt/msgthread.h"
#include "lightspeed/mt/scheduler.h"
using namespace LightSpeed;
template class LightSpeed::Future<int>;
template class LightSpeed::Promise<int>;
template class LightSpeed::Future<StringA>;
template class LightSpeed::Promise<StringA>;
template class LightSpeed::Future<void>;
template class LightSpeed::Promise<void>;
