/* Factor, base unit and quantity of every code (EN 13757-3, sections 8.4.3, 8.4.4 and 6.4.3); 0 = not a code of the tables. */
struct norm { double f; const char *u, *q; };
static const struct norm T_NORM[3 * 128] = {      /* primary VIF, FD extension, FB extension */
    /* 000 */ { 0.001, "Wh", "Energy" },
    /* 001 */ { 0.01, "Wh", "Energy" },
    /* 002 */ { 0.1, "Wh", "Energy" },
    /* 003 */ { 1.0, "Wh", "Energy" },
    /* 004 */ { 10.0, "Wh", "Energy" },
    /* 005 */ { 100.0, "Wh", "Energy" },
    /* 006 */ { 1000.0, "Wh", "Energy" },
    /* 007 */ { 10000.0, "Wh", "Energy" },
    /* 008 */ { 1.0, "J", "Energy" },
    /* 009 */ { 10.0, "J", "Energy" },
    /* 00A */ { 100.0, "J", "Energy" },
    /* 00B */ { 1000.0, "J", "Energy" },
    /* 00C */ { 10000.0, "J", "Energy" },
    /* 00D */ { 100000.0, "J", "Energy" },
    /* 00E */ { 1000000.0, "J", "Energy" },
    /* 00F */ { 10000000.0, "J", "Energy" },
    /* 010 */ { 1e-06, "m^3", "Volume" },
    /* 011 */ { 1e-05, "m^3", "Volume" },
    /* 012 */ { 0.0001, "m^3", "Volume" },
    /* 013 */ { 0.001, "m^3", "Volume" },
    /* 014 */ { 0.01, "m^3", "Volume" },
    /* 015 */ { 0.1, "m^3", "Volume" },
    /* 016 */ { 1.0, "m^3", "Volume" },
    /* 017 */ { 10.0, "m^3", "Volume" },
    /* 018 */ { 0.001, "kg", "Mass" },
    /* 019 */ { 0.01, "kg", "Mass" },
    /* 01A */ { 0.1, "kg", "Mass" },
    /* 01B */ { 1.0, "kg", "Mass" },
    /* 01C */ { 10.0, "kg", "Mass" },
    /* 01D */ { 100.0, "kg", "Mass" },
    /* 01E */ { 1000.0, "kg", "Mass" },
    /* 01F */ { 10000.0, "kg", "Mass" },
    /* 020 */ { 1.0, "s", "On time" },
    /* 021 */ { 60.0, "s", "On time" },
    /* 022 */ { 3600.0, "s", "On time" },
    /* 023 */ { 86400.0, "s", "On time" },
    /* 024 */ { 1.0, "s", "Operating time" },
    /* 025 */ { 60.0, "s", "Operating time" },
    /* 026 */ { 3600.0, "s", "Operating time" },
    /* 027 */ { 86400.0, "s", "Operating time" },
    /* 028 */ { 0.001, "W", "Power" },
    /* 029 */ { 0.01, "W", "Power" },
    /* 02A */ { 0.1, "W", "Power" },
    /* 02B */ { 1.0, "W", "Power" },
    /* 02C */ { 10.0, "W", "Power" },
    /* 02D */ { 100.0, "W", "Power" },
    /* 02E */ { 1000.0, "W", "Power" },
    /* 02F */ { 10000.0, "W", "Power" },
    /* 030 */ { 1.0, "J/h", "Power" },
    /* 031 */ { 10.0, "J/h", "Power" },
    /* 032 */ { 100.0, "J/h", "Power" },
    /* 033 */ { 1000.0, "J/h", "Power" },
    /* 034 */ { 10000.0, "J/h", "Power" },
    /* 035 */ { 100000.0, "J/h", "Power" },
    /* 036 */ { 1000000.0, "J/h", "Power" },
    /* 037 */ { 10000000.0, "J/h", "Power" },
    /* 038 */ { 1e-06, "m^3/h", "Volume flow" },
    /* 039 */ { 1e-05, "m^3/h", "Volume flow" },
    /* 03A */ { 0.0001, "m^3/h", "Volume flow" },
    /* 03B */ { 0.001, "m^3/h", "Volume flow" },
    /* 03C */ { 0.01, "m^3/h", "Volume flow" },
    /* 03D */ { 0.1, "m^3/h", "Volume flow" },
    /* 03E */ { 1.0, "m^3/h", "Volume flow" },
    /* 03F */ { 10.0, "m^3/h", "Volume flow" },
    /* 040 */ { 1e-07, "m^3/min", "Volume flow" },
    /* 041 */ { 1e-06, "m^3/min", "Volume flow" },
    /* 042 */ { 1e-05, "m^3/min", "Volume flow" },
    /* 043 */ { 0.0001, "m^3/min", "Volume flow" },
    /* 044 */ { 0.001, "m^3/min", "Volume flow" },
    /* 045 */ { 0.01, "m^3/min", "Volume flow" },
    /* 046 */ { 0.1, "m^3/min", "Volume flow" },
    /* 047 */ { 1.0, "m^3/min", "Volume flow" },
    /* 048 */ { 1e-09, "m^3/s", "Volume flow" },
    /* 049 */ { 1e-08, "m^3/s", "Volume flow" },
    /* 04A */ { 1e-07, "m^3/s", "Volume flow" },
    /* 04B */ { 1e-06, "m^3/s", "Volume flow" },
    /* 04C */ { 1e-05, "m^3/s", "Volume flow" },
    /* 04D */ { 0.0001, "m^3/s", "Volume flow" },
    /* 04E */ { 0.001, "m^3/s", "Volume flow" },
    /* 04F */ { 0.01, "m^3/s", "Volume flow" },
    /* 050 */ { 0.001, "kg/h", "Mass flow" },
    /* 051 */ { 0.01, "kg/h", "Mass flow" },
    /* 052 */ { 0.1, "kg/h", "Mass flow" },
    /* 053 */ { 1.0, "kg/h", "Mass flow" },
    /* 054 */ { 10.0, "kg/h", "Mass flow" },
    /* 055 */ { 100.0, "kg/h", "Mass flow" },
    /* 056 */ { 1000.0, "kg/h", "Mass flow" },
    /* 057 */ { 10000.0, "kg/h", "Mass flow" },
    /* 058 */ { 0.001, "\302\260C", "Flow temperature" },
    /* 059 */ { 0.01, "\302\260C", "Flow temperature" },
    /* 05A */ { 0.1, "\302\260C", "Flow temperature" },
    /* 05B */ { 1.0, "\302\260C", "Flow temperature" },
    /* 05C */ { 0.001, "\302\260C", "Return temperature" },
    /* 05D */ { 0.01, "\302\260C", "Return temperature" },
    /* 05E */ { 0.1, "\302\260C", "Return temperature" },
    /* 05F */ { 1.0, "\302\260C", "Return temperature" },
    /* 060 */ { 0.001, "K", "Temperature difference" },
    /* 061 */ { 0.01, "K", "Temperature difference" },
    /* 062 */ { 0.1, "K", "Temperature difference" },
    /* 063 */ { 1.0, "K", "Temperature difference" },
    /* 064 */ { 0.001, "\302\260C", "External temperature" },
    /* 065 */ { 0.01, "\302\260C", "External temperature" },
    /* 066 */ { 0.1, "\302\260C", "External temperature" },
    /* 067 */ { 1.0, "\302\260C", "External temperature" },
    /* 068 */ { 0.001, "bar", "Pressure" },
    /* 069 */ { 0.01, "bar", "Pressure" },
    /* 06A */ { 0.1, "bar", "Pressure" },
    /* 06B */ { 1.0, "bar", "Pressure" },
    /* 06C */ { 1.0, "-", "Time point (date)" },
    /* 06D */ { 1.0, "-", "Time point (date & time)" },
    /* 06E */ { 1.0, "Units for H.C.A.", "H.C.A." },
    /* 06F */ { 0.0, "Reserved", "Reserved" },
    /* 070 */ { 1.0, "s", "Averaging Duration" },
    /* 071 */ { 60.0, "s", "Averaging Duration" },
    /* 072 */ { 3600.0, "s", "Averaging Duration" },
    /* 073 */ { 86400.0, "s", "Averaging Duration" },
    /* 074 */ { 1.0, "s", "Actuality Duration" },
    /* 075 */ { 60.0, "s", "Actuality Duration" },
    /* 076 */ { 3600.0, "s", "Actuality Duration" },
    /* 077 */ { 86400.0, "s", "Actuality Duration" },
    /* 078 */ { 1.0, "", "Fabrication No" },
    /* 079 */ { 1.0, "", "(Enhanced) Identification" },
    /* 07A */ { 1.0, "", "Bus Address" },
    /* 07B */ { 0, 0, 0 },
    /* 07C */ { 0, 0, 0 },
    /* 07D */ { 0, 0, 0 },
    /* 07E */ { 1.0, "", "Any VIF" },
    /* 07F */ { 1.0, "", "Manufacturer specific" },
    /* 100 */ { 0.001, "Currency units", "Credit" },
    /* 101 */ { 0.01, "Currency units", "Credit" },
    /* 102 */ { 0.1, "Currency units", "Credit" },
    /* 103 */ { 1.0, "Currency units", "Credit" },
    /* 104 */ { 0.001, "Currency units", "Debit" },
    /* 105 */ { 0.01, "Currency units", "Debit" },
    /* 106 */ { 0.1, "Currency units", "Debit" },
    /* 107 */ { 1.0, "Currency units", "Debit" },
    /* 108 */ { 1.0, "", "Access Number (transmission count)" },
    /* 109 */ { 1.0, "", "Medium" },
    /* 10A */ { 1.0, "", "Manufacturer" },
    /* 10B */ { 1.0, "", "Parameter set identification" },
    /* 10C */ { 1.0, "", "Model / Version" },
    /* 10D */ { 1.0, "", "Hardware version" },
    /* 10E */ { 1.0, "", "Firmware version" },
    /* 10F */ { 1.0, "", "Software version" },
    /* 110 */ { 1.0, "", "Customer location" },
    /* 111 */ { 1.0, "", "Customer" },
    /* 112 */ { 1.0, "", "Access Code User" },
    /* 113 */ { 1.0, "", "Access Code Operator" },
    /* 114 */ { 1.0, "", "Access Code System Operator" },
    /* 115 */ { 1.0, "", "Access Code Developer" },
    /* 116 */ { 1.0, "", "Password" },
    /* 117 */ { 1.0, "", "Error flags" },
    /* 118 */ { 1.0, "", "Error mask" },
    /* 119 */ { 1.0, "Reserved", "Reserved" },
    /* 11A */ { 1.0, "", "Digital Output" },
    /* 11B */ { 1.0, "", "Digital Input" },
    /* 11C */ { 1.0, "Baud", "Baudrate" },
    /* 11D */ { 1.0, "Bittimes", "Response delay time" },
    /* 11E */ { 1.0, "", "Retry" },
    /* 11F */ { 1.0, "Reserved", "Reserved" },
    /* 120 */ { 1.0, "", "First storage # for cyclic storage" },
    /* 121 */ { 1.0, "", "Last storage # for cyclic storage" },
    /* 122 */ { 1.0, "", "Size of storage block" },
    /* 123 */ { 1.0, "Reserved", "Reserved" },
    /* 124 */ { 1.0, "s", "Storage interval" },
    /* 125 */ { 60.0, "s", "Storage interval" },
    /* 126 */ { 3600.0, "s", "Storage interval" },
    /* 127 */ { 86400.0, "s", "Storage interval" },
    /* 128 */ { 2629743.83, "s", "Storage interval" },
    /* 129 */ { 31556926.0, "s", "Storage interval" },
    /* 12A */ { 1.0, "Reserved", "Reserved" },
    /* 12B */ { 1.0, "Reserved", "Reserved" },
    /* 12C */ { 1.0, "s", "Duration since last readout" },
    /* 12D */ { 60.0, "s", "Duration since last readout" },
    /* 12E */ { 3600.0, "s", "Duration since last readout" },
    /* 12F */ { 86400.0, "s", "Duration since last readout" },
    /* 130 */ { 1.0, "", "Start (date/time) of tariff" },
    /* 131 */ { 60.0, "s", "Duration of tariff" },
    /* 132 */ { 3600.0, "s", "Duration of tariff" },
    /* 133 */ { 86400.0, "s", "Duration of tariff" },
    /* 134 */ { 1.0, "s", "Period of tariff" },
    /* 135 */ { 60.0, "s", "Period of tariff" },
    /* 136 */ { 3600.0, "s", "Period of tariff" },
    /* 137 */ { 86400.0, "s", "Period of tariff" },
    /* 138 */ { 2629743.83, "s", "Period of tariff" },
    /* 139 */ { 31556926.0, "s", "Period of tariff" },
    /* 13A */ { 1.0, "", "Dimensionless" },
    /* 13B */ { 1.0, "Reserved", "Reserved" },
    /* 13C */ { 1.0, "Reserved", "Reserved" },
    /* 13D */ { 1.0, "Reserved", "Reserved" },
    /* 13E */ { 1.0, "Reserved", "Reserved" },
    /* 13F */ { 1.0, "Reserved", "Reserved" },
    /* 140 */ { 1e-09, "V", "Voltage" },
    /* 141 */ { 1e-08, "V", "Voltage" },
    /* 142 */ { 1e-07, "V", "Voltage" },
    /* 143 */ { 1e-06, "V", "Voltage" },
    /* 144 */ { 1e-05, "V", "Voltage" },
    /* 145 */ { 0.0001, "V", "Voltage" },
    /* 146 */ { 0.001, "V", "Voltage" },
    /* 147 */ { 0.01, "V", "Voltage" },
    /* 148 */ { 0.1, "V", "Voltage" },
    /* 149 */ { 1.0, "V", "Voltage" },
    /* 14A */ { 10.0, "V", "Voltage" },
    /* 14B */ { 100.0, "V", "Voltage" },
    /* 14C */ { 1000.0, "V", "Voltage" },
    /* 14D */ { 10000.0, "V", "Voltage" },
    /* 14E */ { 100000.0, "V", "Voltage" },
    /* 14F */ { 1000000.0, "V", "Voltage" },
    /* 150 */ { 1e-12, "A", "Current" },
    /* 151 */ { 1e-11, "A", "Current" },
    /* 152 */ { 1e-10, "A", "Current" },
    /* 153 */ { 1e-09, "A", "Current" },
    /* 154 */ { 1e-08, "A", "Current" },
    /* 155 */ { 1e-07, "A", "Current" },
    /* 156 */ { 1e-06, "A", "Current" },
    /* 157 */ { 1e-05, "A", "Current" },
    /* 158 */ { 0.0001, "A", "Current" },
    /* 159 */ { 0.001, "A", "Current" },
    /* 15A */ { 0.01, "A", "Current" },
    /* 15B */ { 0.1, "A", "Current" },
    /* 15C */ { 1.0, "A", "Current" },
    /* 15D */ { 10.0, "A", "Current" },
    /* 15E */ { 100.0, "A", "Current" },
    /* 15F */ { 1000.0, "A", "Current" },
    /* 160 */ { 1.0, "", "Reset counter" },
    /* 161 */ { 1.0, "", "Cumulation counter" },
    /* 162 */ { 1.0, "", "Control signal" },
    /* 163 */ { 1.0, "", "Day of week" },
    /* 164 */ { 1.0, "", "Week number" },
    /* 165 */ { 1.0, "", "Time point of day change" },
    /* 166 */ { 1.0, "", "State of parameter activation" },
    /* 167 */ { 1.0, "", "Special supplier information" },
    /* 168 */ { 3600.0, "s", "Duration since last cumulation" },
    /* 169 */ { 86400.0, "s", "Duration since last cumulation" },
    /* 16A */ { 2629743.83, "s", "Duration since last cumulation" },
    /* 16B */ { 31556926.0, "s", "Duration since last cumulation" },
    /* 16C */ { 3600.0, "s", "Operating time battery" },
    /* 16D */ { 86400.0, "s", "Operating time battery" },
    /* 16E */ { 2629743.83, "s", "Operating time battery" },
    /* 16F */ { 31556926.0, "s", "Operating time battery" },
    /* 170 */ { 1.0, "", "Date and time of battery change" },
    /* 171 */ { 1.0, "Reserved", "Reserved" },
    /* 172 */ { 1.0, "Reserved", "Reserved" },
    /* 173 */ { 1.0, "Reserved", "Reserved" },
    /* 174 */ { 1.0, "Reserved", "Reserved" },
    /* 175 */ { 1.0, "Reserved", "Reserved" },
    /* 176 */ { 1.0, "Reserved", "Reserved" },
    /* 177 */ { 1.0, "Reserved", "Reserved" },
    /* 178 */ { 1.0, "Reserved", "Reserved" },
    /* 179 */ { 1.0, "Reserved", "Reserved" },
    /* 17A */ { 1.0, "Reserved", "Reserved" },
    /* 17B */ { 1.0, "Reserved", "Reserved" },
    /* 17C */ { 1.0, "Reserved", "Reserved" },
    /* 17D */ { 1.0, "Reserved", "Reserved" },
    /* 17E */ { 1.0, "Reserved", "Reserved" },
    /* 17F */ { 1.0, "Reserved", "Reserved" },
    /* 200 */ { 100000.0, "Wh", "Energy" },
    /* 201 */ { 1000000.0, "Wh", "Energy" },
    /* 202 */ { 1.0, "Reserved", "Reserved" },
    /* 203 */ { 1.0, "Reserved", "Reserved" },
    /* 204 */ { 1.0, "Reserved", "Reserved" },
    /* 205 */ { 1.0, "Reserved", "Reserved" },
    /* 206 */ { 1.0, "Reserved", "Reserved" },
    /* 207 */ { 1.0, "Reserved", "Reserved" },
    /* 208 */ { 100000000.0, "J", "Energy" },
    /* 209 */ { 1000000000.0, "J", "Energy" },
    /* 20A */ { 1.0, "Reserved", "Reserved" },
    /* 20B */ { 1.0, "Reserved", "Reserved" },
    /* 20C */ { 1.0, "Reserved", "Reserved" },
    /* 20D */ { 1.0, "Reserved", "Reserved" },
    /* 20E */ { 1.0, "Reserved", "Reserved" },
    /* 20F */ { 1.0, "Reserved", "Reserved" },
    /* 210 */ { 100.0, "m^3", "Volume" },
    /* 211 */ { 1000.0, "m^3", "Volume" },
    /* 212 */ { 1.0, "Reserved", "Reserved" },
    /* 213 */ { 1.0, "Reserved", "Reserved" },
    /* 214 */ { 1.0, "Reserved", "Reserved" },
    /* 215 */ { 1.0, "Reserved", "Reserved" },
    /* 216 */ { 1.0, "Reserved", "Reserved" },
    /* 217 */ { 1.0, "Reserved", "Reserved" },
    /* 218 */ { 100000.0, "kg", "Mass" },
    /* 219 */ { 1000000.0, "kg", "Mass" },
    /* 21A */ { 1.0, "Reserved", "Reserved" },
    /* 21B */ { 1.0, "Reserved", "Reserved" },
    /* 21C */ { 1.0, "Reserved", "Reserved" },
    /* 21D */ { 1.0, "Reserved", "Reserved" },
    /* 21E */ { 1.0, "Reserved", "Reserved" },
    /* 21F */ { 1.0, "Reserved", "Reserved" },
    /* 220 */ { 1.0, "Reserved", "Reserved" },
    /* 221 */ { 0.1, "feet^3", "Volume" },
    /* 222 */ { 0.1, "American gallon", "Volume" },
    /* 223 */ { 1.0, "American gallon", "Volume" },
    /* 224 */ { 0.001, "American gallon/min", "Volume flow" },
    /* 225 */ { 1.0, "American gallon/min", "Volume flow" },
    /* 226 */ { 1.0, "American gallon/h", "Volume flow" },
    /* 227 */ { 1.0, "Reserved", "Reserved" },
    /* 228 */ { 100000.0, "W", "Power" },
    /* 229 */ { 1000000.0, "W", "Power" },
    /* 22A */ { 1.0, "Reserved", "Reserved" },
    /* 22B */ { 1.0, "Reserved", "Reserved" },
    /* 22C */ { 1.0, "Reserved", "Reserved" },
    /* 22D */ { 1.0, "Reserved", "Reserved" },
    /* 22E */ { 1.0, "Reserved", "Reserved" },
    /* 22F */ { 1.0, "Reserved", "Reserved" },
    /* 230 */ { 100000000.0, "J/h", "Power" },
    /* 231 */ { 1000000000.0, "J/h", "Power" },
    /* 232 */ { 1.0, "Reserved", "Reserved" },
    /* 233 */ { 1.0, "Reserved", "Reserved" },
    /* 234 */ { 1.0, "Reserved", "Reserved" },
    /* 235 */ { 1.0, "Reserved", "Reserved" },
    /* 236 */ { 1.0, "Reserved", "Reserved" },
    /* 237 */ { 1.0, "Reserved", "Reserved" },
    /* 238 */ { 1.0, "Reserved", "Reserved" },
    /* 239 */ { 1.0, "Reserved", "Reserved" },
    /* 23A */ { 1.0, "Reserved", "Reserved" },
    /* 23B */ { 1.0, "Reserved", "Reserved" },
    /* 23C */ { 1.0, "Reserved", "Reserved" },
    /* 23D */ { 1.0, "Reserved", "Reserved" },
    /* 23E */ { 1.0, "Reserved", "Reserved" },
    /* 23F */ { 1.0, "Reserved", "Reserved" },
    /* 240 */ { 1.0, "Reserved", "Reserved" },
    /* 241 */ { 1.0, "Reserved", "Reserved" },
    /* 242 */ { 1.0, "Reserved", "Reserved" },
    /* 243 */ { 1.0, "Reserved", "Reserved" },
    /* 244 */ { 1.0, "Reserved", "Reserved" },
    /* 245 */ { 1.0, "Reserved", "Reserved" },
    /* 246 */ { 1.0, "Reserved", "Reserved" },
    /* 247 */ { 1.0, "Reserved", "Reserved" },
    /* 248 */ { 1.0, "Reserved", "Reserved" },
    /* 249 */ { 1.0, "Reserved", "Reserved" },
    /* 24A */ { 1.0, "Reserved", "Reserved" },
    /* 24B */ { 1.0, "Reserved", "Reserved" },
    /* 24C */ { 1.0, "Reserved", "Reserved" },
    /* 24D */ { 1.0, "Reserved", "Reserved" },
    /* 24E */ { 1.0, "Reserved", "Reserved" },
    /* 24F */ { 1.0, "Reserved", "Reserved" },
    /* 250 */ { 1.0, "Reserved", "Reserved" },
    /* 251 */ { 1.0, "Reserved", "Reserved" },
    /* 252 */ { 1.0, "Reserved", "Reserved" },
    /* 253 */ { 1.0, "Reserved", "Reserved" },
    /* 254 */ { 1.0, "Reserved", "Reserved" },
    /* 255 */ { 1.0, "Reserved", "Reserved" },
    /* 256 */ { 1.0, "Reserved", "Reserved" },
    /* 257 */ { 1.0, "Reserved", "Reserved" },
    /* 258 */ { 0.001, "\302\260F", "Flow temperature" },
    /* 259 */ { 0.01, "\302\260F", "Flow temperature" },
    /* 25A */ { 0.1, "\302\260F", "Flow temperature" },
    /* 25B */ { 1.0, "\302\260F", "Flow temperature" },
    /* 25C */ { 0.001, "\302\260F", "Return temperature" },
    /* 25D */ { 0.01, "\302\260F", "Return temperature" },
    /* 25E */ { 0.1, "\302\260F", "Return temperature" },
    /* 25F */ { 1.0, "\302\260F", "Return temperature" },
    /* 260 */ { 0.001, "\302\260F", "Temperature difference" },
    /* 261 */ { 0.01, "\302\260F", "Temperature difference" },
    /* 262 */ { 0.1, "\302\260F", "Temperature difference" },
    /* 263 */ { 1.0, "\302\260F", "Temperature difference" },
    /* 264 */ { 0.001, "\302\260F", "External temperature" },
    /* 265 */ { 0.01, "\302\260F", "External temperature" },
    /* 266 */ { 0.1, "\302\260F", "External temperature" },
    /* 267 */ { 1.0, "\302\260F", "External temperature" },
    /* 268 */ { 1.0, "Reserved", "Reserved" },
    /* 269 */ { 1.0, "Reserved", "Reserved" },
    /* 26A */ { 1.0, "Reserved", "Reserved" },
    /* 26B */ { 1.0, "Reserved", "Reserved" },
    /* 26C */ { 1.0, "Reserved", "Reserved" },
    /* 26D */ { 1.0, "Reserved", "Reserved" },
    /* 26E */ { 1.0, "Reserved", "Reserved" },
    /* 26F */ { 1.0, "Reserved", "Reserved" },
    /* 270 */ { 0.001, "\302\260F", "Cold / Warm Temperature Limit" },
    /* 271 */ { 0.01, "\302\260F", "Cold / Warm Temperature Limit" },
    /* 272 */ { 0.1, "\302\260F", "Cold / Warm Temperature Limit" },
    /* 273 */ { 1.0, "\302\260F", "Cold / Warm Temperature Limit" },
    /* 274 */ { 0.001, "\302\260C", "Cold / Warm Temperature Limit" },
    /* 275 */ { 0.01, "\302\260C", "Cold / Warm Temperature Limit" },
    /* 276 */ { 0.1, "\302\260C", "Cold / Warm Temperature Limit" },
    /* 277 */ { 1.0, "\302\260C", "Cold / Warm Temperature Limit" },
    /* 278 */ { 0.001, "W", "Cumul count max power" },
    /* 279 */ { 0.01, "W", "Cumul count max power" },
    /* 27A */ { 0.1, "W", "Cumul count max power" },
    /* 27B */ { 1.0, "W", "Cumul count max power" },
    /* 27C */ { 10.0, "W", "Cumul count max power" },
    /* 27D */ { 100.0, "W", "Cumul count max power" },
    /* 27E */ { 1000.0, "W", "Cumul count max power" },
    /* 27F */ { 10000.0, "W", "Cumul count max power" },
};
static const struct norm T_FIXN[64] = {
    /* 000 */ { 0, 0, 0 },
    /* 001 */ { 0, 0, 0 },
    /* 002 */ { 1.0, "Wh", "Energy" },
    /* 003 */ { 10.0, "Wh", "Energy" },
    /* 004 */ { 100.0, "Wh", "Energy" },
    /* 005 */ { 1000.0, "Wh", "Energy" },
    /* 006 */ { 10000.0, "Wh", "Energy" },
    /* 007 */ { 100000.0, "Wh", "Energy" },
    /* 008 */ { 1000000.0, "Wh", "Energy" },
    /* 009 */ { 10000000.0, "Wh", "Energy" },
    /* 00A */ { 100000000.0, "Wh", "Energy" },
    /* 00B */ { 1000.0, "J", "Energy" },
    /* 00C */ { 10000.0, "J", "Energy" },
    /* 00D */ { 100000.0, "J", "Energy" },
    /* 00E */ { 1000000.0, "J", "Energy" },
    /* 00F */ { 10000000.0, "J", "Energy" },
    /* 010 */ { 100000000.0, "J", "Energy" },
    /* 011 */ { 1000000000.0, "J", "Energy" },
    /* 012 */ { 10000000000.0, "J", "Energy" },
    /* 013 */ { 100000000000.0, "J", "Energy" },
    /* 014 */ { 1.0, "W", "Power" },
    /* 015 */ { 10.0, "W", "Power" },
    /* 016 */ { 100.0, "W", "Power" },
    /* 017 */ { 1000.0, "W", "Power" },
    /* 018 */ { 10000.0, "W", "Power" },
    /* 019 */ { 100000.0, "W", "Power" },
    /* 01A */ { 1000000.0, "W", "Power" },
    /* 01B */ { 10000000.0, "W", "Power" },
    /* 01C */ { 100000000.0, "W", "Power" },
    /* 01D */ { 1000.0, "J/h", "Power" },
    /* 01E */ { 10000.0, "J/h", "Power" },
    /* 01F */ { 100000.0, "J/h", "Power" },
    /* 020 */ { 1000000.0, "J/h", "Power" },
    /* 021 */ { 10000000.0, "J/h", "Power" },
    /* 022 */ { 100000000.0, "J/h", "Power" },
    /* 023 */ { 1000000000.0, "J/h", "Power" },
    /* 024 */ { 10000000000.0, "J/h", "Power" },
    /* 025 */ { 100000000000.0, "J/h", "Power" },
    /* 026 */ { 1e-06, "m^3", "Volume" },
    /* 027 */ { 1e-05, "m^3", "Volume" },
    /* 028 */ { 0.0001, "m^3", "Volume" },
    /* 029 */ { 0.001, "m^3", "Volume" },
    /* 02A */ { 0.01, "m^3", "Volume" },
    /* 02B */ { 0.1, "m^3", "Volume" },
    /* 02C */ { 1.0, "m^3", "Volume" },
    /* 02D */ { 10.0, "m^3", "Volume" },
    /* 02E */ { 100.0, "m^3", "Volume" },
    /* 02F */ { 1e-06, "m^3/h", "Volume flow" },
    /* 030 */ { 1e-05, "m^3/h", "Volume flow" },
    /* 031 */ { 0.0001, "m^3/h", "Volume flow" },
    /* 032 */ { 0.001, "m^3/h", "Volume flow" },
    /* 033 */ { 0.01, "m^3/h", "Volume flow" },
    /* 034 */ { 0.1, "m^3/h", "Volume flow" },
    /* 035 */ { 1.0, "m^3/h", "Volume flow" },
    /* 036 */ { 10.0, "m^3/h", "Volume flow" },
    /* 037 */ { 100.0, "m^3/h", "Volume flow" },
    /* 038 */ { 0.001, "\302\260C", "Temperature" },
    /* 039 */ { 1.0, "Units for H.C.A.", "H.C.A." },
    /* 03A */ { 0.0, "Reserved", "Reserved" },
    /* 03B */ { 0.0, "Reserved", "Reserved" },
    /* 03C */ { 0.0, "Reserved", "Reserved" },
    /* 03D */ { 0.0, "Reserved", "Reserved" },
    /* 03E */ { 1.0, "", "historic" },
    /* 03F */ { 1.0, "", "No units" },
};
