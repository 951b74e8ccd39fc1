#include "checks.h"
void registerAll() { registerHostChecks(); registerDosChecks(); registerSimChecks(); registerLibChecks(); registerGameChecks(); registerWinChecks(); registerChainChecks(); registerPpChecks(); registerDiagChecks(); registerCpuChecks(); registerCapChecks(); registerAsmChecks(); registerTornChecks(); registerObserveChecks(); registerTextChecks(); }
