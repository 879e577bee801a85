// The repository's Due storage, compiled for the Due.
#ifndef __SAM3X8E__
#error compile with -D__SAM3X8E__
#endif
#include "DueEepromEmulationStorage.cpp"
VLCB::Storage *makeDueStorage() { return new VLCB::DueEepromEmulationStorage; }
