// Stand-in for the parts of EPICS base that the virtual accelerator server uses.  Threads, mutexes and
// events are the simulator's; record and scan support follow EPICS base (see the comments in wl/c12.cpp).
#ifndef EPICSSTUB_H
#define EPICSSTUB_H
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <pthread.h>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <stdexcept>

// ---- libCom ----
class epicsMutex {
    pthread_mutex_t m; epicsMutex(const epicsMutex&); void operator=(const epicsMutex&);
public:
    epicsMutex(); ~epicsMutex(); void lock(); void unlock(); bool tryLock(); void show(unsigned) const {}
};
class epicsEvent {
    bool full; epicsEvent(const epicsEvent&); void operator=(const epicsEvent&);
public:
    explicit epicsEvent(int initial = 0); ~epicsEvent(); void signal(); void trigger() { signal(); } void wait(); bool wait(double); bool tryWait(); void show(unsigned) const {}
};
template<class T> class epicsGuardRelease;
template<class T> class epicsGuard {
    T* p; friend class epicsGuardRelease<T>; epicsGuard(const epicsGuard&); void operator=(const epicsGuard&);
public:
    epicsGuard(T& m) : p(&m) { p->lock(); } ~epicsGuard() { p->unlock(); }
};
template<class T> class epicsGuardRelease {
    epicsGuard<T>& g; T* p; epicsGuardRelease(const epicsGuardRelease&); void operator=(const epicsGuardRelease&);
public:
    epicsGuardRelease(epicsGuard<T>& G) : g(G), p(G.p) { g.p = 0; p->unlock(); } ~epicsGuardRelease() { p->lock(); g.p = p; }
};
typedef enum { epicsThreadStackSmall, epicsThreadStackMedium, epicsThreadStackBig } epicsThreadStackSizeClass;
unsigned epicsThreadGetStackSize(epicsThreadStackSizeClass);
enum { epicsThreadPriorityLow = 10, epicsThreadPriorityMedium = 50, epicsThreadPriorityHigh = 90 };
class epicsThreadRunable { public: virtual ~epicsThreadRunable() {} virtual void run() = 0; virtual void show(unsigned) const {} };
class epicsThread {
    epicsThreadRunable& r; bool begun, cancel, ended; int id; epicsThread(const epicsThread&); void operator=(const epicsThread&);
public:
    class unableToCreateThread : public std::exception { public: const char* what() const throw() { return "unable to create thread"; } };
    epicsThread(epicsThreadRunable&, const char* name, unsigned stack, unsigned prio = epicsThreadPriorityLow);
    virtual ~epicsThread(); void start(); void exitWait(); bool exitWait(double);
    static void sleep(double);
};
void epicsThreadSleep(double);
typedef struct { uint32_t secPastEpoch, nsec; } epicsTimeStamp;
enum { epicsTimeEventCurrentTime = 0, epicsTimeEventBestTime = -1, epicsTimeEventDeviceTime = -2 };
extern "C" int epicsTimeGetCurrent(epicsTimeStamp*);
extern "C" double epicsTimeDiffInSeconds(const epicsTimeStamp*, const epicsTimeStamp*);
extern "C" int errlogPrintf(const char*, ...) __attribute__((format(printf, 1, 2)));
extern "C" int epicsAtExit(void (*)(void*), void*);

// ---- iocsh ----
typedef enum { iocshArgInt, iocshArgDouble, iocshArgString, iocshArgPdbbase, iocshArgArgv, iocshArgPersistentString } iocshArgType;
typedef union { int ival; double dval; char* sval; void* vval; } iocshArgBuf;
typedef struct { const char* name; iocshArgType type; void* pval; } iocshVarDef;
typedef struct { const char* name; iocshArgType type; } iocshArg;
typedef struct { const char* name; int nargs; const iocshArg* const* arg; } iocshFuncDef;
typedef void (*iocshCallFunc)(const iocshArgBuf*);
extern "C" void iocshRegister(const iocshFuncDef*, iocshCallFunc);
extern "C" void iocshRegisterVariable(const iocshVarDef*);

// ---- database ----
struct ioscan_head; typedef ioscan_head* IOSCANPVT;
extern "C" void scanIoInit(IOSCANPVT*);
extern "C" unsigned scanIoRequest(IOSCANPVT);
enum { INST_IO = 12 };
enum { READ_ALARM = 1, WRITE_ALARM = 2, UDF_ALARM = 17 };
enum { NO_ALARM = 0, MINOR_ALARM = 1, MAJOR_ALARM = 2, INVALID_ALARM = 3 };
enum { menuFtypeSTRING, menuFtypeCHAR, menuFtypeUCHAR, menuFtypeSHORT, menuFtypeUSHORT, menuFtypeLONG, menuFtypeULONG, menuFtypeFLOAT, menuFtypeDOUBLE, menuFtypeENUM };
struct instio_link { char* string; };
struct link { union { instio_link instio; } value; short type; };
typedef struct link DBLINK;
typedef long (*DEVSUPFUN)();
struct dset { long number; DEVSUPFUN report, init, init_record, get_ioint_info; };
struct dbCommon { char name[61]; void* dpvt; short tse; epicsTimeStamp time; unsigned char tpro, udf; unsigned short stat, sevr, nsta, nsev, acks; };
struct aiRecord : dbCommon { double val; int32_t rval; DBLINK inp; unsigned short linr; double eslo, eoff, aslo, aoff; };
struct aoRecord : dbCommon { double val, oval; int32_t rval; DBLINK out; unsigned short linr; double eslo, eoff, aslo, aoff; };
struct boRecord : dbCommon { unsigned short val; uint32_t rval; DBLINK out; };
struct longinRecord : dbCommon { int32_t val; DBLINK inp; };
struct waveformRecord : dbCommon { void* bptr; uint32_t nelm, nord; unsigned short ftvl; DBLINK inp; };
extern "C" int recGblSetSevr(void* prec, unsigned short stat, unsigned short sevr);

#define epicsExportAddress(TYP, OBJ) TYP* pvar_##TYP##_##OBJ = (TYP*)&OBJ
#define epicsExportRegistrar(FN) void (*pvar_func_##FN)() = &FN
#endif
