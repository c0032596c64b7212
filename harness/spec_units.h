/* The code tables of the unit, medium and error texts (EN 13757-3 / the M-Bus documentation, section 8.4).
 * 0 = not a code of the table: the documented reserved or unknown text, see spec_*() in c14_units.c. */
static const char *const T_VIF[128] = {
    /* 00 */ "Energy (mWh)",
    /* 01 */ "Energy (1e-2 Wh)",
    /* 02 */ "Energy (1e-1 Wh)",
    /* 03 */ "Energy (Wh)",
    /* 04 */ "Energy (10 Wh)",
    /* 05 */ "Energy (100 Wh)",
    /* 06 */ "Energy (kWh)",
    /* 07 */ "Energy (10 kWh)",
    /* 08 */ "Energy (J)",
    /* 09 */ "Energy (10 J)",
    /* 0A */ "Energy (100 J)",
    /* 0B */ "Energy (kJ)",
    /* 0C */ "Energy (10 kJ)",
    /* 0D */ "Energy (100 kJ)",
    /* 0E */ "Energy (MJ)",
    /* 0F */ "Energy (1e7 J)",
    /* 10 */ "Volume (my m^3)",
    /* 11 */ "Volume (1e-5  m^3)",
    /* 12 */ "Volume (1e-4  m^3)",
    /* 13 */ "Volume (m m^3)",
    /* 14 */ "Volume (1e-2  m^3)",
    /* 15 */ "Volume (1e-1  m^3)",
    /* 16 */ "Volume ( m^3)",
    /* 17 */ "Volume (10  m^3)",
    /* 18 */ "Mass (mkg)",
    /* 19 */ "Mass (1e-2 kg)",
    /* 1A */ "Mass (1e-1 kg)",
    /* 1B */ "Mass (kg)",
    /* 1C */ "Mass (10 kg)",
    /* 1D */ "Mass (100 kg)",
    /* 1E */ "Mass (kkg)",
    /* 1F */ "Mass (10 kkg)",
    /* 20 */ "On time (seconds)",
    /* 21 */ "On time (minutes)",
    /* 22 */ "On time (hours)",
    /* 23 */ "On time (days)",
    /* 24 */ "Operating time (seconds)",
    /* 25 */ "Operating time (minutes)",
    /* 26 */ "Operating time (hours)",
    /* 27 */ "Operating time (days)",
    /* 28 */ "Power (mW)",
    /* 29 */ "Power (1e-2 W)",
    /* 2A */ "Power (1e-1 W)",
    /* 2B */ "Power (W)",
    /* 2C */ "Power (10 W)",
    /* 2D */ "Power (100 W)",
    /* 2E */ "Power (kW)",
    /* 2F */ "Power (10 kW)",
    /* 30 */ "Power (J/h)",
    /* 31 */ "Power (10 J/h)",
    /* 32 */ "Power (100 J/h)",
    /* 33 */ "Power (kJ/h)",
    /* 34 */ "Power (10 kJ/h)",
    /* 35 */ "Power (100 kJ/h)",
    /* 36 */ "Power (MJ/h)",
    /* 37 */ "Power (1e7 J/h)",
    /* 38 */ "Volume flow (my m^3/h)",
    /* 39 */ "Volume flow (1e-5  m^3/h)",
    /* 3A */ "Volume flow (1e-4  m^3/h)",
    /* 3B */ "Volume flow (m m^3/h)",
    /* 3C */ "Volume flow (1e-2  m^3/h)",
    /* 3D */ "Volume flow (1e-1  m^3/h)",
    /* 3E */ "Volume flow ( m^3/h)",
    /* 3F */ "Volume flow (10  m^3/h)",
    /* 40 */ "Volume flow (1e-7  m^3/min)",
    /* 41 */ "Volume flow (my m^3/min)",
    /* 42 */ "Volume flow (1e-5  m^3/min)",
    /* 43 */ "Volume flow (1e-4  m^3/min)",
    /* 44 */ "Volume flow (m m^3/min)",
    /* 45 */ "Volume flow (1e-2  m^3/min)",
    /* 46 */ "Volume flow (1e-1  m^3/min)",
    /* 47 */ "Volume flow ( m^3/min)",
    /* 48 */ "Volume flow (1e-9  m^3/s)",
    /* 49 */ "Volume flow (1e-8  m^3/s)",
    /* 4A */ "Volume flow (1e-7  m^3/s)",
    /* 4B */ "Volume flow (my m^3/s)",
    /* 4C */ "Volume flow (1e-5  m^3/s)",
    /* 4D */ "Volume flow (1e-4  m^3/s)",
    /* 4E */ "Volume flow (m m^3/s)",
    /* 4F */ "Volume flow (1e-2  m^3/s)",
    /* 50 */ "Mass flow (m kg/h)",
    /* 51 */ "Mass flow (1e-2  kg/h)",
    /* 52 */ "Mass flow (1e-1  kg/h)",
    /* 53 */ "Mass flow ( kg/h)",
    /* 54 */ "Mass flow (10  kg/h)",
    /* 55 */ "Mass flow (100  kg/h)",
    /* 56 */ "Mass flow (k kg/h)",
    /* 57 */ "Mass flow (10 k kg/h)",
    /* 58 */ "Flow temperature (mdeg C)",
    /* 59 */ "Flow temperature (1e-2 deg C)",
    /* 5A */ "Flow temperature (1e-1 deg C)",
    /* 5B */ "Flow temperature (deg C)",
    /* 5C */ "Return temperature (mdeg C)",
    /* 5D */ "Return temperature (1e-2 deg C)",
    /* 5E */ "Return temperature (1e-1 deg C)",
    /* 5F */ "Return temperature (deg C)",
    /* 60 */ "Temperature Difference (m deg C)",
    /* 61 */ "Temperature Difference (1e-2  deg C)",
    /* 62 */ "Temperature Difference (1e-1  deg C)",
    /* 63 */ "Temperature Difference ( deg C)",
    /* 64 */ "External temperature (m deg C)",
    /* 65 */ "External temperature (1e-2  deg C)",
    /* 66 */ "External temperature (1e-1  deg C)",
    /* 67 */ "External temperature ( deg C)",
    /* 68 */ "Pressure (m bar)",
    /* 69 */ "Pressure (1e-2  bar)",
    /* 6A */ "Pressure (1e-1  bar)",
    /* 6B */ "Pressure ( bar)",
    /* 6C */ "Time Point (date)",
    /* 6D */ "Time Point (time & date)",
    /* 6E */ "Units for H.C.A.",
    /* 6F */ "Reserved",
    /* 70 */ "Averaging Duration (seconds)",
    /* 71 */ "Averaging Duration (minutes)",
    /* 72 */ "Averaging Duration (hours)",
    /* 73 */ "Averaging Duration (days)",
    /* 74 */ "Actuality Duration (seconds)",
    /* 75 */ "Actuality Duration (minutes)",
    /* 76 */ "Actuality Duration (hours)",
    /* 77 */ "Actuality Duration (days)",
    /* 78 */ "Fabrication number",
    /* 79 */ 0,
    /* 7A */ "Bus Address",
    /* 7B */ 0,
    /* 7C */ "Custom VIF",
    /* 7D */ 0,
    /* 7E */ 0,
    /* 7F */ "Manufacturer specific",
};
static const char *const T_FB[128] = {
    /* 00 */ "Energy (0.1 MWh)",
    /* 01 */ "Energy (MWh)",
    /* 02 */ 0,
    /* 03 */ 0,
    /* 04 */ 0,
    /* 05 */ 0,
    /* 06 */ 0,
    /* 07 */ 0,
    /* 08 */ "Energy (0.1 GJ)",
    /* 09 */ "Energy (GJ)",
    /* 0A */ 0,
    /* 0B */ 0,
    /* 0C */ 0,
    /* 0D */ 0,
    /* 0E */ 0,
    /* 0F */ 0,
    /* 10 */ "Volume (100 m3)",
    /* 11 */ "Volume (km3)",
    /* 12 */ 0,
    /* 13 */ 0,
    /* 14 */ 0,
    /* 15 */ 0,
    /* 16 */ 0,
    /* 17 */ 0,
    /* 18 */ "Mass (100 t)",
    /* 19 */ "Mass (kt)",
    /* 1A */ 0,
    /* 1B */ 0,
    /* 1C */ 0,
    /* 1D */ 0,
    /* 1E */ 0,
    /* 1F */ 0,
    /* 20 */ 0,
    /* 21 */ "Volume (0.1 feet^3)",
    /* 22 */ "Volume (0.1 american gallon)",
    /* 23 */ "Volume (american gallon)",
    /* 24 */ "Volume flow (0.001 american gallon/min)",
    /* 25 */ "Volume flow (american gallon/min)",
    /* 26 */ "Volume flow (american gallon/h)",
    /* 27 */ 0,
    /* 28 */ "Power (0.1 MW)",
    /* 29 */ "Power (MW)",
    /* 2A */ 0,
    /* 2B */ 0,
    /* 2C */ 0,
    /* 2D */ 0,
    /* 2E */ 0,
    /* 2F */ 0,
    /* 30 */ "Power (0.1 GJ/h)",
    /* 31 */ "Power (GJ/h)",
    /* 32 */ 0,
    /* 33 */ 0,
    /* 34 */ 0,
    /* 35 */ 0,
    /* 36 */ 0,
    /* 37 */ 0,
    /* 38 */ 0,
    /* 39 */ 0,
    /* 3A */ 0,
    /* 3B */ 0,
    /* 3C */ 0,
    /* 3D */ 0,
    /* 3E */ 0,
    /* 3F */ 0,
    /* 40 */ 0,
    /* 41 */ 0,
    /* 42 */ 0,
    /* 43 */ 0,
    /* 44 */ 0,
    /* 45 */ 0,
    /* 46 */ 0,
    /* 47 */ 0,
    /* 48 */ 0,
    /* 49 */ 0,
    /* 4A */ 0,
    /* 4B */ 0,
    /* 4C */ 0,
    /* 4D */ 0,
    /* 4E */ 0,
    /* 4F */ 0,
    /* 50 */ 0,
    /* 51 */ 0,
    /* 52 */ 0,
    /* 53 */ 0,
    /* 54 */ 0,
    /* 55 */ 0,
    /* 56 */ 0,
    /* 57 */ 0,
    /* 58 */ "Flow Temperature (m degree F)",
    /* 59 */ "Flow Temperature (1e-2  degree F)",
    /* 5A */ "Flow Temperature (1e-1  degree F)",
    /* 5B */ "Flow Temperature ( degree F)",
    /* 5C */ "Return Temperature (m degree F)",
    /* 5D */ "Return Temperature (1e-2  degree F)",
    /* 5E */ "Return Temperature (1e-1  degree F)",
    /* 5F */ "Return Temperature ( degree F)",
    /* 60 */ "Temperature Difference (m degree F)",
    /* 61 */ "Temperature Difference (1e-2  degree F)",
    /* 62 */ "Temperature Difference (1e-1  degree F)",
    /* 63 */ "Temperature Difference ( degree F)",
    /* 64 */ "External Temperature (m degree F)",
    /* 65 */ "External Temperature (1e-2  degree F)",
    /* 66 */ "External Temperature (1e-1  degree F)",
    /* 67 */ "External Temperature ( degree F)",
    /* 68 */ 0,
    /* 69 */ 0,
    /* 6A */ 0,
    /* 6B */ 0,
    /* 6C */ 0,
    /* 6D */ 0,
    /* 6E */ 0,
    /* 6F */ 0,
    /* 70 */ "Cold / Warm Temperature Limit (m degree F)",
    /* 71 */ "Cold / Warm Temperature Limit (1e-2  degree F)",
    /* 72 */ "Cold / Warm Temperature Limit (1e-1  degree F)",
    /* 73 */ "Cold / Warm Temperature Limit ( degree F)",
    /* 74 */ "Cold / Warm Temperature Limit (m degree C)",
    /* 75 */ "Cold / Warm Temperature Limit (1e-2  degree C)",
    /* 76 */ "Cold / Warm Temperature Limit (1e-1  degree C)",
    /* 77 */ "Cold / Warm Temperature Limit ( degree C)",
    /* 78 */ "cumul. count max power (m W)",
    /* 79 */ "cumul. count max power (1e-2  W)",
    /* 7A */ "cumul. count max power (1e-1  W)",
    /* 7B */ "cumul. count max power ( W)",
    /* 7C */ "cumul. count max power (10  W)",
    /* 7D */ "cumul. count max power (100  W)",
    /* 7E */ "cumul. count max power (k W)",
    /* 7F */ "cumul. count max power (10 k W)",
};
static const char *const T_FD[128] = {
    /* 00 */ "Credit of m of the nominal local legal currency units",
    /* 01 */ "Credit of 1e-2  of the nominal local legal currency units",
    /* 02 */ "Credit of 1e-1  of the nominal local legal currency units",
    /* 03 */ "Credit of  of the nominal local legal currency units",
    /* 04 */ "Debit of m of the nominal local legal currency units",
    /* 05 */ "Debit of 1e-2  of the nominal local legal currency units",
    /* 06 */ "Debit of 1e-1  of the nominal local legal currency units",
    /* 07 */ "Debit of  of the nominal local legal currency units",
    /* 08 */ "Access Number (transmission count)",
    /* 09 */ "Medium (as in fixed header)",
    /* 0A */ "Manufacturer (as in fixed header)",
    /* 0B */ "Parameter set identification",
    /* 0C */ "Model / Version",
    /* 0D */ "Hardware version",
    /* 0E */ "Firmware version",
    /* 0F */ "Software version",
    /* 10 */ "Customer location",
    /* 11 */ "Customer",
    /* 12 */ "Access Code User",
    /* 13 */ "Access Code Operator",
    /* 14 */ "Access Code System Operator",
    /* 15 */ "Access Code Developer",
    /* 16 */ "Password",
    /* 17 */ "Error flags",
    /* 18 */ "Error mask",
    /* 19 */ "Reserved",
    /* 1A */ "Digital output (binary)",
    /* 1B */ "Digital input (binary)",
    /* 1C */ "Baudrate",
    /* 1D */ "response delay time",
    /* 1E */ "Retry",
    /* 1F */ "Reserved",
    /* 20 */ "First storage # for cyclic storage",
    /* 21 */ "Last storage # for cyclic storage",
    /* 22 */ "Size of storage block",
    /* 23 */ "Reserved",
    /* 24 */ "Storage interval second(s)",
    /* 25 */ "Storage interval minute(s)",
    /* 26 */ "Storage interval hour(s)",
    /* 27 */ "Storage interval day(s)",
    /* 28 */ "Storage interval month(s)",
    /* 29 */ "Storage interval year(s)",
    /* 2A */ "Reserved",
    /* 2B */ "Reserved",
    /* 2C */ "Duration since last readout second(s)",
    /* 2D */ "Duration since last readout minute(s)",
    /* 2E */ "Duration since last readout hour(s)",
    /* 2F */ "Duration since last readout day(s)",
    /* 30 */ "Start (date/time) of tariff",
    /* 31 */ "Duration of tariff minute(s)",
    /* 32 */ "Duration of tariff hour(s)",
    /* 33 */ "Duration of tariff day(s)",
    /* 34 */ "Period of tariff second(s)",
    /* 35 */ "Period of tariff minute(s)",
    /* 36 */ "Period of tariff hour(s)",
    /* 37 */ "Period of tariff day(s)",
    /* 38 */ "Period of tariff months(s)",
    /* 39 */ "Period of tariff year(s)",
    /* 3A */ "dimensionless / no VIF",
    /* 3B */ "Reserved",
    /* 3C */ "Reserved",
    /* 3D */ "Reserved",
    /* 3E */ "Reserved",
    /* 3F */ "Reserved",
    /* 40 */ "1e-9  V",
    /* 41 */ "1e-8  V",
    /* 42 */ "1e-7  V",
    /* 43 */ "my V",
    /* 44 */ "1e-5  V",
    /* 45 */ "1e-4  V",
    /* 46 */ "m V",
    /* 47 */ "1e-2  V",
    /* 48 */ "1e-1  V",
    /* 49 */ " V",
    /* 4A */ "10  V",
    /* 4B */ "100  V",
    /* 4C */ "k V",
    /* 4D */ "10 k V",
    /* 4E */ "100 k V",
    /* 4F */ "M V",
    /* 50 */ "1e-12  A",
    /* 51 */ "1e-11  A",
    /* 52 */ "1e-10  A",
    /* 53 */ "1e-9  A",
    /* 54 */ "1e-8  A",
    /* 55 */ "1e-7  A",
    /* 56 */ "my A",
    /* 57 */ "1e-5  A",
    /* 58 */ "1e-4  A",
    /* 59 */ "m A",
    /* 5A */ "1e-2  A",
    /* 5B */ "1e-1  A",
    /* 5C */ " A",
    /* 5D */ "10  A",
    /* 5E */ "100  A",
    /* 5F */ "k A",
    /* 60 */ "Reset counter",
    /* 61 */ "Cumulation counter",
    /* 62 */ "Control signal",
    /* 63 */ "Day of week",
    /* 64 */ "Week number",
    /* 65 */ "Time point of day change",
    /* 66 */ "State of parameter activation",
    /* 67 */ "Special supplier information",
    /* 68 */ "Duration since last cumulation hour(s)",
    /* 69 */ "Duration since last cumulation day(s)",
    /* 6A */ "Duration since last cumulation month(s)",
    /* 6B */ "Duration since last cumulation year(s)",
    /* 6C */ "Operating time battery hour(s)",
    /* 6D */ "Operating time battery day(s)",
    /* 6E */ "Operating time battery month(s)",
    /* 6F */ "Operating time battery year(s)",
    /* 70 */ "Date and time of battery change",
    /* 71 */ "Reserved VIF extension",
    /* 72 */ "Reserved VIF extension",
    /* 73 */ "Reserved VIF extension",
    /* 74 */ "Reserved VIF extension",
    /* 75 */ "Reserved VIF extension",
    /* 76 */ "Reserved VIF extension",
    /* 77 */ "Reserved VIF extension",
    /* 78 */ "Reserved VIF extension",
    /* 79 */ "Reserved VIF extension",
    /* 7A */ "Reserved VIF extension",
    /* 7B */ "Reserved VIF extension",
    /* 7C */ "Reserved VIF extension",
    /* 7D */ "Reserved VIF extension",
    /* 7E */ "Reserved VIF extension",
    /* 7F */ "Reserved VIF extension",
};
static const char *const T_MED[256] = {
    /* 00 */ "Other",
    /* 01 */ "Oil",
    /* 02 */ "Electricity",
    /* 03 */ "Gas",
    /* 04 */ "Heat: Outlet",
    /* 05 */ "Steam",
    /* 06 */ "Warm water (30-90\302\260C)",
    /* 07 */ "Water",
    /* 08 */ "Heat Cost Allocator",
    /* 09 */ "Compressed Air",
    /* 0A */ "Cooling load meter: Outlet",
    /* 0B */ "Cooling load meter: Inlet",
    /* 0C */ "Heat: Inlet",
    /* 0D */ "Heat / Cooling load meter",
    /* 0E */ "Bus/System",
    /* 0F */ "Unknown Medium",
    /* 10 */ "Irrigation Water",
    /* 11 */ "Water Logger",
    /* 12 */ "Gas Logger",
    /* 13 */ "Gas Converter",
    /* 14 */ "Calorific value",
    /* 15 */ "Hot water (>90\302\260C)",
    /* 16 */ "Cold water",
    /* 17 */ "Dual water",
    /* 18 */ "Pressure",
    /* 19 */ "A/D Converter",
    /* 1A */ "Smoke Detector",
    /* 1B */ "Ambient Sensor",
    /* 1C */ "Gas Detector",
    /* 1D */ 0,
    /* 1E */ 0,
    /* 1F */ 0,
    /* 20 */ "Breaker: Electricity",
    /* 21 */ "Valve: Gas or Water",
    /* 22 */ "Reserved",
    /* 23 */ "Reserved",
    /* 24 */ "Reserved",
    /* 25 */ "Customer Unit: Display Device",
    /* 26 */ "Reserved",
    /* 27 */ "Reserved",
    /* 28 */ "Waste Water",
    /* 29 */ "Garbage",
    /* 2A */ "Reserved",
    /* 2B */ "Reserved",
    /* 2C */ "Reserved",
    /* 2D */ "Reserved",
    /* 2E */ "Reserved",
    /* 2F */ "Reserved",
    /* 30 */ "Service Unit",
    /* 31 */ "Reserved",
    /* 32 */ "Reserved",
    /* 33 */ "Reserved",
    /* 34 */ "Reserved",
    /* 35 */ 0,
    /* 36 */ "Radio Converter: System",
    /* 37 */ "Radio Converter: Meter",
    /* 38 */ "Reserved",
    /* 39 */ "Reserved",
    /* 3A */ "Reserved",
    /* 3B */ "Reserved",
    /* 3C */ "Reserved",
    /* 3D */ "Reserved",
    /* 3E */ "Reserved",
    /* 3F */ "Reserved",
    /* 40 */ 0,
    /* 41 */ 0,
    /* 42 */ 0,
    /* 43 */ 0,
    /* 44 */ 0,
    /* 45 */ 0,
    /* 46 */ 0,
    /* 47 */ 0,
    /* 48 */ 0,
    /* 49 */ 0,
    /* 4A */ 0,
    /* 4B */ 0,
    /* 4C */ 0,
    /* 4D */ 0,
    /* 4E */ 0,
    /* 4F */ 0,
    /* 50 */ 0,
    /* 51 */ 0,
    /* 52 */ 0,
    /* 53 */ 0,
    /* 54 */ 0,
    /* 55 */ 0,
    /* 56 */ 0,
    /* 57 */ 0,
    /* 58 */ 0,
    /* 59 */ 0,
    /* 5A */ 0,
    /* 5B */ 0,
    /* 5C */ 0,
    /* 5D */ 0,
    /* 5E */ 0,
    /* 5F */ 0,
    /* 60 */ 0,
    /* 61 */ 0,
    /* 62 */ 0,
    /* 63 */ 0,
    /* 64 */ 0,
    /* 65 */ 0,
    /* 66 */ 0,
    /* 67 */ 0,
    /* 68 */ 0,
    /* 69 */ 0,
    /* 6A */ 0,
    /* 6B */ 0,
    /* 6C */ 0,
    /* 6D */ 0,
    /* 6E */ 0,
    /* 6F */ 0,
    /* 70 */ 0,
    /* 71 */ 0,
    /* 72 */ 0,
    /* 73 */ 0,
    /* 74 */ 0,
    /* 75 */ 0,
    /* 76 */ 0,
    /* 77 */ 0,
    /* 78 */ 0,
    /* 79 */ 0,
    /* 7A */ 0,
    /* 7B */ 0,
    /* 7C */ 0,
    /* 7D */ 0,
    /* 7E */ 0,
    /* 7F */ 0,
    /* 80 */ 0,
    /* 81 */ 0,
    /* 82 */ 0,
    /* 83 */ 0,
    /* 84 */ 0,
    /* 85 */ 0,
    /* 86 */ 0,
    /* 87 */ 0,
    /* 88 */ 0,
    /* 89 */ 0,
    /* 8A */ 0,
    /* 8B */ 0,
    /* 8C */ 0,
    /* 8D */ 0,
    /* 8E */ 0,
    /* 8F */ 0,
    /* 90 */ 0,
    /* 91 */ 0,
    /* 92 */ 0,
    /* 93 */ 0,
    /* 94 */ 0,
    /* 95 */ 0,
    /* 96 */ 0,
    /* 97 */ 0,
    /* 98 */ 0,
    /* 99 */ 0,
    /* 9A */ 0,
    /* 9B */ 0,
    /* 9C */ 0,
    /* 9D */ 0,
    /* 9E */ 0,
    /* 9F */ 0,
    /* A0 */ 0,
    /* A1 */ 0,
    /* A2 */ 0,
    /* A3 */ 0,
    /* A4 */ 0,
    /* A5 */ 0,
    /* A6 */ 0,
    /* A7 */ 0,
    /* A8 */ 0,
    /* A9 */ 0,
    /* AA */ 0,
    /* AB */ 0,
    /* AC */ 0,
    /* AD */ 0,
    /* AE */ 0,
    /* AF */ 0,
    /* B0 */ 0,
    /* B1 */ 0,
    /* B2 */ 0,
    /* B3 */ 0,
    /* B4 */ 0,
    /* B5 */ 0,
    /* B6 */ 0,
    /* B7 */ 0,
    /* B8 */ 0,
    /* B9 */ 0,
    /* BA */ 0,
    /* BB */ 0,
    /* BC */ 0,
    /* BD */ 0,
    /* BE */ 0,
    /* BF */ 0,
    /* C0 */ 0,
    /* C1 */ 0,
    /* C2 */ 0,
    /* C3 */ 0,
    /* C4 */ 0,
    /* C5 */ 0,
    /* C6 */ 0,
    /* C7 */ 0,
    /* C8 */ 0,
    /* C9 */ 0,
    /* CA */ 0,
    /* CB */ 0,
    /* CC */ 0,
    /* CD */ 0,
    /* CE */ 0,
    /* CF */ 0,
    /* D0 */ 0,
    /* D1 */ 0,
    /* D2 */ 0,
    /* D3 */ 0,
    /* D4 */ 0,
    /* D5 */ 0,
    /* D6 */ 0,
    /* D7 */ 0,
    /* D8 */ 0,
    /* D9 */ 0,
    /* DA */ 0,
    /* DB */ 0,
    /* DC */ 0,
    /* DD */ 0,
    /* DE */ 0,
    /* DF */ 0,
    /* E0 */ 0,
    /* E1 */ 0,
    /* E2 */ 0,
    /* E3 */ 0,
    /* E4 */ 0,
    /* E5 */ 0,
    /* E6 */ 0,
    /* E7 */ 0,
    /* E8 */ 0,
    /* E9 */ 0,
    /* EA */ 0,
    /* EB */ 0,
    /* EC */ 0,
    /* ED */ 0,
    /* EE */ 0,
    /* EF */ 0,
    /* F0 */ 0,
    /* F1 */ 0,
    /* F2 */ 0,
    /* F3 */ 0,
    /* F4 */ 0,
    /* F5 */ 0,
    /* F6 */ 0,
    /* F7 */ 0,
    /* F8 */ 0,
    /* F9 */ 0,
    /* FA */ 0,
    /* FB */ 0,
    /* FC */ 0,
    /* FD */ 0,
    /* FE */ 0,
    /* FF */ 0,
};
static const char *const T_FIX[64] = {
    /* 00 */ "h,m,s",
    /* 01 */ "D,M,Y",
    /* 02 */ "Wh",
    /* 03 */ "10 Wh",
    /* 04 */ "100 Wh",
    /* 05 */ "kWh",
    /* 06 */ "10 kWh",
    /* 07 */ "100 kWh",
    /* 08 */ "MWh",
    /* 09 */ "10 MWh",
    /* 0A */ "100 MWh",
    /* 0B */ "kJ",
    /* 0C */ "10 kJ",
    /* 0D */ "100 kJ",
    /* 0E */ "MJ",
    /* 0F */ "10 MJ",
    /* 10 */ "100 MJ",
    /* 11 */ "GJ",
    /* 12 */ "10 GJ",
    /* 13 */ "100 GJ",
    /* 14 */ "W",
    /* 15 */ "10 W",
    /* 16 */ "100 W",
    /* 17 */ "kW",
    /* 18 */ "10 kW",
    /* 19 */ "100 kW",
    /* 1A */ "MW",
    /* 1B */ "10 MW",
    /* 1C */ "100 MW",
    /* 1D */ "kJ/h",
    /* 1E */ "10 kJ/h",
    /* 1F */ "100 kJ/h",
    /* 20 */ "MJ/h",
    /* 21 */ "10 MJ/h",
    /* 22 */ "100 MJ/h",
    /* 23 */ "GJ/h",
    /* 24 */ "10 GJ/h",
    /* 25 */ "100 GJ/h",
    /* 26 */ "ml",
    /* 27 */ "10 ml",
    /* 28 */ "100 ml",
    /* 29 */ "l",
    /* 2A */ "10 l",
    /* 2B */ "100 l",
    /* 2C */ "m^3",
    /* 2D */ "10 m^3",
    /* 2E */ "100 m^3",
    /* 2F */ "ml/h",
    /* 30 */ "10 ml/h",
    /* 31 */ "100 ml/h",
    /* 32 */ "l/h",
    /* 33 */ "10 l/h",
    /* 34 */ "100 l/h",
    /* 35 */ "m^3/h",
    /* 36 */ "10 m^3/h",
    /* 37 */ "100 m^3/h",
    /* 38 */ "1e-3 \302\260C",
    /* 39 */ "units for HCA",
    /* 3A */ "reserved",
    /* 3B */ "reserved",
    /* 3C */ "reserved",
    /* 3D */ "reserved",
    /* 3E */ "reserved but historic",
    /* 3F */ "without units",
};
static const char *const T_ERR[16] = {
    /* 00 */ "Unspecified error",
    /* 01 */ "Unimplemented CI-Field",
    /* 02 */ "Buffer too long, truncated",
    /* 03 */ "Too many records",
    /* 04 */ "Premature end of record",
    /* 05 */ "More than 10 DIFE\302\264s",
    /* 06 */ "More than 10 VIFE\302\264s",
    /* 07 */ "Reserved",
    /* 08 */ "Application busy",
    /* 09 */ "Too many readouts",
    /* 0A */ 0,
    /* 0B */ 0,
    /* 0C */ 0,
    /* 0D */ 0,
    /* 0E */ 0,
    /* 0F */ 0,
};
