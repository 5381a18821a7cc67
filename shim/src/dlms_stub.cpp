#include "devices/dlms_device.h"
void TDlmsDevice::Register(TSerialDeviceFactory&)
{}
void DLMS::PrintDeviceTemplateGenerationOptionsUsage()
{}
void DLMS::GenerateDeviceTemplate(TDeviceTemplateGenerationMode,
                                  PPort,
                                  const std::string&,
                                  const std::string&,
                                  const std::vector<std::string>&)
{}
