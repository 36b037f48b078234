DE = "packages/decimal/src/decimal.rs"
U = "packages/phoenix/src/utils.rs"
K = "packages/curve/src/lib.rs"
TT = "packages/phoenix/src/ttl.rs"
D = "contracts/stake/src/distribution.rs"
P = "contracts/pool/src/contract.rs"
PS = "contracts/pool/src/storage.rs"
MUL = "        self * rhs.0 / Decimal::DECIMAL_FRACTIONAL\n"
RAT = "        let ratio = (numerator * Self::DECIMAL_FRACTIONAL) / denominator;"
DM = "        let result = (self.numerator() * other.numerator()) / Self::DECIMAL_FRACTIONAL;"
B = [
("mul-ceil", "P01", [(DE, MUL, "        let p = self * rhs.0; p / Decimal::DECIMAL_FRACTIONAL + i128::from(p % Decimal::DECIMAL_FRACTIONAL > Decimal::DECIMAL_FRACTIONAL / 1_000_000 * 999_999)\n")]),
("mul-round", "P04", [(DE, MUL, "        (self * rhs.0 + 1) / Decimal::DECIMAL_FRACTIONAL\n")]),
("mul-split", "P01", [(DE, MUL, "        let q = self / Decimal::DECIMAL_FRACTIONAL; let r = self % Decimal::DECIMAL_FRACTIONAL; q * rhs.0 + r * (rhs.0 / 10) / (Decimal::DECIMAL_FRACTIONAL / 10)\n")]),
("ratio-trunc", "P04", [(DE, RAT, "        let ratio = if numerator > 1_000_000_000_000_000 { (numerator / 10) * Self::DECIMAL_FRACTIONAL / (denominator / 10).max(1) } else { (numerator * Self::DECIMAL_FRACTIONAL) / denominator };")]),
("ratio-round", "P05", [(DE, RAT, "        let ratio = (numerator * Self::DECIMAL_FRACTIONAL + denominator / 2) / denominator;")]),
("ratio-ceil", "P04", [(DE, RAT, "        let ratio = (numerator * Self::DECIMAL_FRACTIONAL) / denominator + i128::from((numerator * Self::DECIMAL_FRACTIONAL) % denominator != 0);")]),
("ratio-cap", "P03", [(DE, RAT, "        let ratio = ((numerator * Self::DECIMAL_FRACTIONAL) / denominator).min(Self::DECIMAL_FRACTIONAL * 1_000_000);")]),
("dmul-floor", "K02", [(DE, DM, "        let result = self.numerator() / 1_000 * other.numerator() / (Self::DECIMAL_FRACTIONAL / 1_000);")]),
("inv-one", "P06", [(DE, "            Some(Decimal(Self::DECIMAL_FRACTIONAL_SQUARED / self.0))", "            Some(Decimal(Self::DECIMAL_FRACTIONAL_SQUARED / self.0 + 1))")]),
("bps-clamp", "P01", [(DE, "    pub fn bps(x: i64) -> Self {\n", "    pub fn bps(x: i64) -> Self {\n        let x = if x == 9_999 { 10_000 } else { x };\n")]),
("bps-max", "P07", [(U, "        const MAX_BPS: i64 = 10_000;", "        const MAX_BPS: i64 = 10_001;")]),
("bps-excl", "P07", [(U, "(MIN_BPS..=MAX_BPS)", "(MIN_BPS..MAX_BPS)")]),
("bps-min", "P07", [(U, "        const MIN_BPS: i64 = 0;", "        const MIN_BPS: i64 = -1;")]),
("bps-stable", "S06", [(U, "        const MAX_BPS: i64 = 10_000;", "        const MAX_BPS: i64 = 10_001;")]),
("bps-factory", "F03", [(U, "        const MAX_BPS: i64 = 10_000;", "        const MAX_BPS: i64 = 10_001;")]),
("ints-zero", "P03", [(U, "                    if val <= 0 {", "                    if val < 0 {")]),
("ints-one", "K01", [(U, "                    if val <= 0 {", "                    if val <= 1 {")]),
("to-u128-wrap", "R01", [(U, "    if input < 0 {\n        panic!(\"Cannot convert i128 to u128\");\n    } else {", "    {")]),
("to-i128-wrap", "V02", [(U, "    if input > i128::MAX as u128 {\n        panic!(\"Cannot convert u128 to i128\");\n    } else {", "    {")]),
("to-i128-clip", "V04", [(U, "    if input > i128::MAX as u128 {\n        panic!(\"Cannot convert u128 to i128\");\n    } else {", "    if input > i128::MAX as u128 { i128::MAX } else {")]),
("combine-first-time", "R01", [(K, "            if Some(current_time) != last_time {", "            if Some(current_time) != last_time && (i + 1 < times.len() || i < 3 || current_time != 0) {")]),
("combine-bubble", "R01", [(K, "            for j in 0..len - 1 - i {", "            for j in 0..(len - 1 - i).min(3) {")]),
("combine-dedup-skip", "R01", [(K, "            if Some(current_time) != last_time {\n", "            if i != 2 && Some(current_time) != last_time {\n")]),
("combine-const-first", "R01", [(K, "                        value: const_y + y,", "                        value: if i == 0 || y > 0 { const_y + y } else { 0 },")]),
("combine-sat-min", "R01", [(K, "                max_y: sl.max_y + const_y,", "                max_y: sl.max_y,")]),
("size-pw", "V03", [(K, "            Curve::PiecewiseLinear(pl) => pl.steps.len(),", "            Curve::PiecewiseLinear(pl) => pl.steps.len().max(2) - 1,")]),
("interp-order", "R01", [(K, "        min_y - (min_y - max_y) * u128::from(x - min_x) / u128::from(max_x - min_x)", "        min_y - (min_y - max_y) / u128::from(max_x - min_x) * u128::from(x - min_x)")]),
("interp-late", "V01", [(K, "        min_y - (min_y - max_y) * u128::from(x - min_x) / u128::from(max_x - min_x)", "        max_y + (min_y - max_y) * u128::from(max_x - x) / u128::from(max_x - min_x)")]),
("value-first-after", "V01", [(K, "        if x <= first.time {\n            return first.value;", "        if x <= first.time + u64::from(self.steps.len() > 3) {\n            return first.value;")]),
("ttl-instance", "X01", [(TT, "pub const INSTANCE_BUMP_AMOUNT: u32 = 7 * DAY_IN_LEDGERS;", "pub const INSTANCE_BUMP_AMOUNT: u32 = 6 * DAY_IN_LEDGERS;")]),
]
