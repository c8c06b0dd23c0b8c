// What the harness sees of the emulated device: its event log, its faults, its memory.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
namespace emu
{
enum Kind { eMalloc, eFree, eCopy, eSet, eLaunch, eRun, eSync, eError };
struct Event { Kind kind; void const * a, * b; size_t bytes; int how; int error; std::string name; unsigned threads; };
std::vector< Event > & log();
std::vector< std::string > & misuse();   // what no correct program does, whatever it computes
std::string & output();                  // what kernels printed
size_t live();                           // allocations on the device
size_t runs();                           // kernel threads that ran to their end
void reset();                            // a fresh device: no memory, no error, no fault
// Memory that belongs to the host: no kernel can reach it.
void * hostPages( size_t bytes, bool atEnd );
void freeHostPages( void * p );
struct Faults { int mallocs = 0, launches = 0, copiesIn = 0, copiesOut = 0, syncs = 0; bool noDevice = false; };   // how many of the next ones fail
Faults & faults();
bool inKernel();
}
