// C18: text forms of the enumerations, and what the parsed document means.

macro norm(s) = lower(trim(s))

func (winres.SupportedOS).MarshalText
props C18
scoped terminates
  modifies nothing
  ensures "WinVistaAndAbove has its text" os == WinVistaAndAbove ==> result1 == nil && norm(strof(result0)) == "vista"
  ensures "Win7AndAbove has its text" os == Win7AndAbove ==> result1 == nil && norm(strof(result0)) == "win7"
  ensures "Win8AndAbove has its text" os == Win8AndAbove ==> result1 == nil && norm(strof(result0)) == "win8"
  ensures "Win81AndAbove has its text" os == Win81AndAbove ==> result1 == nil && norm(strof(result0)) == "win8.1"
  ensures "Win10AndAbove has its text" os == Win10AndAbove ==> result1 == nil && norm(strof(result0)) == "win10"
  ensures "another value is refused" os != WinVistaAndAbove && os != Win7AndAbove && os != Win8AndAbove && os != Win81AndAbove && os != Win10AndAbove ==> result1 != nil

func (*winres.SupportedOS).UnmarshalText
props C18
scoped terminates
  requires os != nil
  modifies *os
  ensures "the texts of WinVistaAndAbove" norm(strof(b)) == "vista" ==> result == nil && *os == WinVistaAndAbove
  ensures "the texts of Win7AndAbove" norm(strof(b)) == "win7" ==> result == nil && *os == Win7AndAbove
  ensures "the texts of Win8AndAbove" norm(strof(b)) == "win8" ==> result == nil && *os == Win8AndAbove
  ensures "the texts of Win81AndAbove" norm(strof(b)) == "win8.1" ==> result == nil && *os == Win81AndAbove
  ensures "the texts of Win10AndAbove" norm(strof(b)) == "win10" ==> result == nil && *os == Win10AndAbove
  ensures "unknown texts are refused" norm(strof(b)) != "vista" && norm(strof(b)) != "win7" && norm(strof(b)) != "win8" && norm(strof(b)) != "win8.1" && norm(strof(b)) != "win10" ==> result != nil
  ensures "a refusal changes nothing" result != nil ==> *os == old(*os)

func (winres.DPIAwareness).MarshalText
props C18
scoped terminates
  modifies nothing
  ensures "DPIAware has its text" a == DPIAware ==> result1 == nil && norm(strof(result0)) == "system"
  ensures "DPIUnaware has its text" a == DPIUnaware ==> result1 == nil && norm(strof(result0)) == "unaware"
  ensures "DPIPerMonitor has its text" a == DPIPerMonitor ==> result1 == nil && norm(strof(result0)) == "per monitor"
  ensures "DPIPerMonitorV2 has its text" a == DPIPerMonitorV2 ==> result1 == nil && norm(strof(result0)) == "per monitor v2"
  ensures "another value is refused" a != DPIAware && a != DPIUnaware && a != DPIPerMonitor && a != DPIPerMonitorV2 ==> result1 != nil

func (*winres.DPIAwareness).UnmarshalText
props C18
scoped terminates
  requires a != nil
  modifies *a
  ensures "the texts of DPIAware" norm(strof(b)) == "system" || norm(strof(b)) == "true" || norm(strof(b)) == "" ==> result == nil && *a == DPIAware
  ensures "the texts of DPIUnaware" norm(strof(b)) == "unaware" || norm(strof(b)) == "false" ==> result == nil && *a == DPIUnaware
  ensures "the texts of DPIPerMonitor" norm(strof(b)) == "per monitor" || norm(strof(b)) == "permonitor" || norm(strof(b)) == "true/pm" ==> result == nil && *a == DPIPerMonitor
  ensures "the texts of DPIPerMonitorV2" norm(strof(b)) == "per monitor v2" || norm(strof(b)) == "permonitorv2" ==> result == nil && *a == DPIPerMonitorV2
  ensures "unknown texts are refused" norm(strof(b)) != "system" && norm(strof(b)) != "true" && norm(strof(b)) != "" && norm(strof(b)) != "unaware" && norm(strof(b)) != "false" && norm(strof(b)) != "per monitor" && norm(strof(b)) != "permonitor" && norm(strof(b)) != "true/pm" && norm(strof(b)) != "per monitor v2" && norm(strof(b)) != "permonitorv2" ==> result != nil
  ensures "a refusal changes nothing" result != nil ==> *a == old(*a)

func (winres.ExecutionLevel).MarshalText
props C18
scoped terminates
  modifies nothing
  ensures "AsInvoker has its text" level == AsInvoker ==> result1 == nil && norm(strof(result0)) == ""
  ensures "HighestAvailable has its text" level == HighestAvailable ==> result1 == nil && norm(strof(result0)) == "highest"
  ensures "RequireAdministrator has its text" level == RequireAdministrator ==> result1 == nil && norm(strof(result0)) == "administrator"
  ensures "another value is refused" level != AsInvoker && level != HighestAvailable && level != RequireAdministrator ==> result1 != nil

func (*winres.ExecutionLevel).UnmarshalText
props C18
scoped terminates
  requires level != nil
  modifies *level
  ensures "the texts of AsInvoker" norm(strof(b)) == "" || norm(strof(b)) == "as invoker" || norm(strof(b)) == "asinvoker" ==> result == nil && *level == AsInvoker
  ensures "the texts of HighestAvailable" norm(strof(b)) == "highest" || norm(strof(b)) == "highest available" || norm(strof(b)) == "highestavailable" ==> result == nil && *level == HighestAvailable
  ensures "the texts of RequireAdministrator" norm(strof(b)) == "administrator" || norm(strof(b)) == "require administrator" || norm(strof(b)) == "requireadministrator" ==> result == nil && *level == RequireAdministrator
  ensures "unknown texts are refused" norm(strof(b)) != "" && norm(strof(b)) != "as invoker" && norm(strof(b)) != "asinvoker" && norm(strof(b)) != "highest" && norm(strof(b)) != "highest available" && norm(strof(b)) != "highestavailable" && norm(strof(b)) != "administrator" && norm(strof(b)) != "require administrator" && norm(strof(b)) != "requireadministrator" ==> result != nil
  ensures "a refusal changes nothing" result != nil ==> *level == old(*level)

func winres.osIDToEnum
props C18
scoped terminates
  modifies nothing
  ensures osID == "{e2011457-1546-43c5-a5fe-008deee3d3f0}" ==> result == WinVistaAndAbove
  ensures osID == "{35138b9a-5d96-4fbd-8e2d-a2440225f93a}" ==> result == Win7AndAbove
  ensures osID == "{4a2f28e3-53b9-4441-ba9c-d69d4a4a6e38}" ==> result == Win8AndAbove
  ensures osID == "{1f676c76-80e1-4239-95bb-83d0f6d0da78}" ==> result == Win81AndAbove
  ensures osID == "{8e0f7a12-bfb3-4fe8-b9a5-48fd50a15a9a}" ==> result == Win10AndAbove

func winres.manifestBool
props C18
scoped terminates
  modifies nothing
  ensures result == (norm(s) == "true")
