#pragma once
#include "core.h"
void registerAll();
void registerHostChecks();
void registerDosChecks();
void registerSimChecks();
void registerLibChecks();
void registerGameChecks();
void registerWinChecks();
void registerChainChecks();
void registerPpChecks();
void registerDiagChecks();
void registerCpuChecks();
void registerCapChecks();
void registerAsmChecks();
void registerTornChecks();
void registerObserveChecks(); void registerTextChecks();
string genPrepTree(Rng& r, map<string, string>& files); // source text for scpp within its limits, includes in files
vector<string> checkIds();
