SPECIFICATION Spec
CONSTANTS Days = {"1", "01", "28", "31"} Months = {"1", "03", "12"} Years = {"2020", "1969", "69", "68", "00", "0099", "1900"}
 Seps = {"-", "/", "."} Times = {"", " 00:00:00", "T23:59:59", " 7:05", "T10:30", " 24:00", " 10:60"} Tails = {"", " ", "Z"}
INVARIANTS First InDay Written Replayed
CHECK_DEADLOCK FALSE
