// Stand-in for the host information behind the SYSENV macro provider: every
// query answers with a fixed text, the host is not examined.
#include <kwiversys/SystemInformation.hxx>
namespace kwiversys {
SystemInformation::SystemInformation() : Implementation( 0 ) {}
SystemInformation::~SystemInformation() {}
void SystemInformation::RunCPUCheck() {}
void SystemInformation::RunOSCheck() {}
void SystemInformation::RunMemoryCheck() {}
bool SystemInformation::Is64Bits() { return true; }
const char* SystemInformation::GetHostname() { return "host"; }
std::string SystemInformation::GetFullyQualifiedDomainName() { return "domain"; }
const char* SystemInformation::GetOSName() { return "osname"; }
std::string SystemInformation::GetOSDescription() { return "osdescription"; }
const char* SystemInformation::GetOSPlatform() { return "platform"; }
const char* SystemInformation::GetOSVersion() { return "version"; }
int SystemInformation::GetOSIsWindows() { return false; }
int SystemInformation::GetOSIsLinux() { return true; }
int SystemInformation::GetOSIsApple() { return false; }
unsigned int SystemInformation::GetNumberOfLogicalCPU() { return 4; }
unsigned int SystemInformation::GetNumberOfPhysicalCPU() { return 2; }
size_t SystemInformation::GetTotalVirtualMemory() { return 11; }
size_t SystemInformation::GetAvailableVirtualMemory() { return 12; }
size_t SystemInformation::GetTotalPhysicalMemory() { return 13; }
size_t SystemInformation::GetAvailablePhysicalMemory() { return 14; }
}
