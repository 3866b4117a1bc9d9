"""Edits that keep the behaviour: whole functions rewritten another way (helper extracted or inlined, loop rewritten,
statements reordered, conditions restated). tools/quiet.sh applies each to a copy and expects every check to stay quiet."""
EDITS = {}


def fn(name, file, start, new):
    """replace the function whose definition starts with `start` (up to the first closing brace in column 0)"""
    EDITS.setdefault(name, []).append(("fn", file, start, new))


def sub(name, file, old, new, n=1):
    EDITS.setdefault(name, []).append(("sub", file, old, new, n))


def rx(name, file, pattern, new, n=0):
    """regular-expression substitution (at least one match; exactly n when n > 0)"""
    EDITS.setdefault(name, []).append(("rx", file, pattern, new, n))


EFF = "source/Types/src/Effect.cpp"
fn("phase_value_or", EFF, "[[nodiscard]] auto Effect::getPhaseOrDefault()", """[[nodiscard]] auto Effect::getPhaseOrDefault() const -> float {
  return phase.value_or(DEFAULT_PHASE);
}
""")
fn("addFrequency_loop", EFF, "auto Effect::addFrequencyAt(", """auto Effect::addFrequencyAt(std::optional<int> frequency, int position) -> bool {
  size_t i = 0;
  while (i < keyframes.size() && !(keyframes[i].getRelativePosition() >= position)) {
    i++;
  }
  if (i < keyframes.size() && keyframes[i].getRelativePosition() == position) {
    keyframes[i].setFrequencyModulation(frequency);
    return true;
  }
  keyframes.insert(keyframes.begin() + static_cast<long>(i), Keyframe(position, std::nullopt, frequency));
  return true;
}
""")
fn("addAmplitude_nest", EFF, "auto Effect::addAmplitudeAt(std::optional<float> amplitude, int position,\n", """auto Effect::addAmplitudeAt(std::optional<float> amplitude, int position,
                            bool overrideIfAlreadyExists) -> bool {
  auto it = std::find_if(keyframes.begin(), keyframes.end(), [&](const haptics::types::Keyframe &k) {
    auto p = k.getRelativePosition();
    return p >= position;
  });
  const bool exists = it != keyframes.end() && it->getRelativePosition() == position;
  if (exists && overrideIfAlreadyExists) {
    it->setAmplitudeModulation(amplitude);
    return true;
  }
  if (exists) {
    ++it;
  }
  keyframes.insert(it, Keyframe(position, amplitude, std::nullopt));
  return true;
}
""")
fn("isEquivalent_iter", EFF, "auto Effect::isEquivalent(", """auto Effect::isEquivalent(Effect &effect) -> bool {
  const bool basis = effectType == EffectType::Basis && effect.effectType == EffectType::Basis;
  if (!basis) {
    return false;
  }
  if (!(phase == effect.phase && baseSignal == effect.baseSignal)) {
    return false;
  }
  if (keyframes.size() != effect.keyframes.size()) {
    return false;
  }
  auto other = effect.keyframes.begin();
  for (auto &kf : keyframes) {
    if (kf != *other) {
      return false;
    }
    ++other;
  }
  return true;
}
""")
sub("vectorial_helper", EFF, """auto Effect::EvaluateVectorial(double""", """static auto hasAmplitude(const haptics::types::Keyframe &k) -> bool {
  return k.getAmplitudeModulation().has_value();
}

static auto positionOf(const haptics::types::Keyframe &k) -> int {
  return k.getRelativePosition().value_or(0);
}

auto Effect::EvaluateVectorial(double""")
sub("vectorial_helper", EFF, """        std::make_reverse_iterator(firstAmplitudeKeyframeAfterPositionIt), keyframes.rend(),
        [](haptics::types::Keyframe k) { return k.getAmplitudeModulation().has_value(); });""", """        std::make_reverse_iterator(firstAmplitudeKeyframeAfterPositionIt), keyframes.rend(),
        hasAmplitude);""")
sub("vectorial_helper", EFF, """      int t0 = firstAmplitudeKeyframeBeforePositionIt->getRelativePosition().has_value()
                   ? firstAmplitudeKeyframeBeforePositionIt->getRelativePosition().value()
                   : 0;
""", """      int t0 = positionOf(*firstAmplitudeKeyframeBeforePositionIt);
""")
sub("vectorial_helper", EFF, """      int pos = firstFrequencyKeyframeAfterPositionIt->getRelativePosition().has_value()
                    ? firstFrequencyKeyframeAfterPositionIt->getRelativePosition().value()
                    : 0;
""", """      int pos = positionOf(*firstFrequencyKeyframeAfterPositionIt);
""")
fn("transient_for", EFF, "auto Effect::EvaluateTransient(", """auto Effect::EvaluateTransient(double position, double transientDuration) -> double {
  const double relativePosition = position - this->position;
  const auto active = [relativePosition, transientDuration](const Keyframe &kf) -> bool {
    auto p = kf.getRelativePosition();
    if (!p) {
      return false;
    }
    return *p <= relativePosition && *p + transientDuration >= relativePosition;
  };
  double res = 0;
  for (auto it = std::find_if(keyframes.rbegin(), keyframes.rend(), active);
       it != keyframes.rend() && active(*it); ++it) {
    auto a = it->getAmplitudeModulation();
    if (a.has_value()) {
      const double x = 4 * M_PI * (relativePosition - *it->getRelativePosition()) / transientDuration;
      res += std::sin(x) * *a;
    }
  }
  return res;
}
""")
fn("basesignal_cycles", EFF, "[[nodiscard]] auto Effect::computeBaseSignal(", """[[nodiscard]] auto Effect::computeBaseSignal(double time, double frequency, double phase) const
    -> double {
  if (frequency != 0) {
    time = time + phase / (2 * M_PI * frequency);
  }
  const double cycles = time * frequency;
  const BaseSignal signal = this->getBaseSignalOrDefault();
  if (signal == BaseSignal::Sine) {
    return std::sin(2 * M_PI * time * frequency);
  }
  if (signal == BaseSignal::Square) {
    return 1 - 2 * std::round(cycles - std::floor(cycles));
  }
  if (signal == BaseSignal::Triangle) {
    const double shifted = cycles - .25;
    return 1 - 4 * std::fabs(std::round(shifted) - shifted);
  }
  const double saw = cycles - std::floor(cycles + .5);
  if (signal == BaseSignal::SawToothUp) {
    return 2 * saw;
  }
  if (signal == BaseSignal::SawToothDown) {
    return -2 * saw;
  }
  return 1;
}
""")
fn("timelength_loop", EFF, "auto Effect::getEffectTimeLength(", """auto Effect::getEffectTimeLength(types::BandType bandType, double transientDuration) -> double {
  for (int i = static_cast<int>(keyframes.size()) - 1; i >= 0; i--) {
    auto p = keyframes[i].getRelativePosition();
    if (!p.has_value()) {
      continue;
    }
    if (bandType == types::BandType::Transient) {
      return p.value() + transientDuration;
    }
    if (bandType == types::BandType::Curve || bandType == types::BandType::VectorialWave) {
      return p.value();
    }
    return 0;
  }
  return 0;
}
""")
fn("wavelet_eval", EFF, "auto Effect::EvaluateWavelet(", """auto Effect::EvaluateWavelet(double position, int fs, unsigned int timescale) -> double {
  const auto rate = static_cast<double>(fs) / static_cast<double>(timescale);
  (void)rate;
  const double x = (position - this->position) * (double)fs / (double)timescale;
  const int index = static_cast<int>(std::floor(x));
  if (index >= 0 && index < (int)waveletSamples.size()) {
    return waveletSamples.at(index);
  }
  return 0;
}
""")
BAND = "source/Types/src/Band.cpp"
fn("band_add_loop", BAND, "auto Band::addEffect(", """auto Band::addEffect(Effect &newEffect) -> void {
  size_t k = 0;
  for (; k < effects.size(); ++k) {
    if (newEffect.getPosition() < effects[k].getPosition()) {
      break;
    }
  }
  effects.insert(effects.begin() + static_cast<long>(k), newEffect);
}
""")
fn("band_add_upper", BAND, "auto Band::addEffect(", """auto Band::addEffect(Effect &newEffect) -> void {
  auto it = std::find_if_not(effects.begin(), effects.end(), [&newEffect](const Effect &e) {
    return e.getPosition() <= newEffect.getPosition();
  });
  effects.insert(it, newEffect);
}
""")
fn("band_remove", BAND, "auto Band::removeEffectAt(", """auto Band::removeEffectAt(int index) -> bool {
  const bool valid = 0 <= index && index < static_cast<int>(effects.size());
  if (valid) {
    effects.erase(std::next(effects.begin(), index));
  }
  return valid;
}
""")
fn("band_overlap", BAND, "[[nodiscard]] auto Band::isOverlapping(", """[[nodiscard]] auto Band::isOverlapping(haptics::types::Effect &effect, const int start,
                                       const int stop) -> bool {
  const int first = effect.getPosition();
  const double last = first + effect.getEffectTimeLength(bandType, TRANSIENT_DURATION_MS);
  const auto covers = [first, last](int x) { return first <= x && x <= last; };
  if (covers(start) || covers(stop)) {
    return true;
  }
  if (start <= first && last <= stop) {
    return true;
  }
  return first <= start && stop <= last;
}
""")
fn("band_eval_reverse", BAND, "auto Band::Evaluate(", """auto Band::Evaluate(double position, int lowFrequencyLimit, int highFrequencyLimit,
                    unsigned int timescale) -> double {
  if (effects.empty()) {
    return 0;
  }
  if (bandType != types::BandType::WaveletWave) {
    auto &last = effects.back();
    const double end = last.getPosition() + last.getEffectTimeLength(bandType, TRANSIENT_DURATION_MS);
    if (position < 0 || position > end) {
      return 0;
    }
  }
  for (auto it = effects.rbegin(); it != effects.rend(); ++it) {
    if (it->getPosition() <= position) {
      return EvaluationSwitch(position, &*it, lowFrequencyLimit, highFrequencyLimit, timescale);
    }
  }
  return 0;
}
""")
sub("band_curve_helper", BAND, """auto Band::EvaluationBand(uint32_t""", """static auto interpolate(CurveType type, const std::vector<std::pair<int, double>> &keyframes)
    -> std::vector<double> {
  if (keyframes.size() == 2) {
    return haptics::tools::linearInterpolation2(keyframes);
  }
  switch (type) {
  case CurveType::Linear:
    return haptics::tools::linearInterpolation2(keyframes);
  case CurveType::Akima:
    return haptics::tools::akimaInterpolation(keyframes);
  case CurveType::Bezier:
    return haptics::tools::bezierInterpolation(keyframes);
  case CurveType::Bspline:
    return haptics::tools::bsplineInterpolation(keyframes);
  case CurveType::Cubic:
  default:
    return haptics::tools::cubicInterpolation2(keyframes);
  }
}

auto Band::EvaluationBand(uint32_t""")
sub("band_curve_helper", BAND, """      std::vector<double> effectAmp(static_cast<::std::size_t>(keyframes.back().first) + 1, 0);
      if (keyframes.size() == 2) {
        effectAmp = haptics::tools::linearInterpolation2(keyframes);
      } else {
        switch (getCurveTypeOrDefault()) {
        case CurveType::Linear:
          effectAmp = haptics::tools::linearInterpolation2(keyframes);
          break;
        case CurveType::Cubic:
          effectAmp = haptics::tools::cubicInterpolation2(keyframes);
          break;
        case CurveType::Akima:
          effectAmp = haptics::tools::akimaInterpolation(keyframes);
          break;
        case CurveType::Bezier:
          effectAmp = haptics::tools::bezierInterpolation(keyframes);
          break;
        case CurveType::Bspline:
          effectAmp = haptics::tools::bsplineInterpolation(keyframes);
          break;
        default:
          effectAmp = haptics::tools::cubicInterpolation2(keyframes);
          break;
        }
      }
""", """      const std::vector<double> effectAmp = interpolate(getCurveTypeOrDefault(), keyframes);
""")
HAP = "source/Types/src/Haptics.cpp"
fn("perc_meta_ref", HAP, "auto Haptics::replacePerceptionMetadataAt(", """auto Haptics::replacePerceptionMetadataAt(int index, Perception &newPerception) -> bool {
  if (!(index >= 0 && index < static_cast<int>(perceptions.size()))) {
    return false;
  }
  Perception &target = perceptions.at(index);
  target.clearEffectLibrary();
  target.clearReferenceDevices();
  std::string scheme = newPerception.getEffectSemanticSchemeOrDefault();
  target.setEffectSemanticScheme(scheme);
  std::string desc = newPerception.getDescription();
  target.setDescription(desc);
  target.setId(newPerception.getId());
  target.setAvatarId(newPerception.getAvatarId());
  target.setPerceptionModality(newPerception.getPerceptionModality());
  target.setPerceptionUnitExponent(newPerception.getPerceptionUnitExponentOrDefault());
  target.setUnitExponent(newPerception.getUnitExponentOrDefault());
  int n = static_cast<int>(newPerception.getReferenceDevicesSize());
  int i = 0;
  while (i < n) {
    target.addReferenceDevice(newPerception.getReferenceDeviceAt(i++));
  }
  n = static_cast<int>(newPerception.getEffectLibrarySize());
  for (i = 0; i < n; ++i) {
    auto effect = newPerception.getBasisEffectAt(i);
    target.addBasisEffect(effect);
  }
  return true;
}
""")
sub("index_helper", HAP, """namespace haptics::types {
""", """namespace haptics::types {

namespace {
template <class T> auto inRange(int index, const std::vector<T> &v) -> bool {
  return index >= 0 && static_cast<size_t>(index) < v.size();
}
} // namespace
""")
sub("index_helper", HAP, "  if (index < 0 || index >= (int)perceptions.size()) {", "  if (!inRange(index, perceptions)) {", 3)
fn("ohm_extract", HAP, "auto Haptics::extractMetadataToOHM(", """auto Haptics::extractMetadataToOHM(std::string &filename) -> haptics::tools::OHMData {
  short v = 0;
  if (!version.empty()) {
    v = static_cast<short>(std::stoi(version));
  }
  std::string header("OHM ");
  std::string text = description;
  haptics::tools::OHMData res(header, v, text);
  for (auto &p : perceptions) {
    tools::OHMData::HapticElementMetadata element;
    element.elementFilename = filename;
    element.elementDescription = p.getDescription();
    element.numHapticChannels = static_cast<short>(p.getChannelsSize());
    for (short i = 0; i < element.numHapticChannels; ++i) {
      types::Channel &t = p.getChannelAt(i);
      tools::OHMData::HapticChannelMetadata channel;
      channel.gain = t.getGain();
      channel.channelDescription = t.getDescription();
      channel.bodyPartMask = static_cast<tools::OHMData::Body>(t.getBodyPartMask());
      element.channelsMetadata.push_back(channel);
    }
    res.addHapticElementMetadata(element);
  }
  return res;
}
""")
PER = "source/Types/src/Perception.cpp"
fn("effect_by_id_find", PER, "auto Perception::getEffectById(", """auto Perception::getEffectById(int id) -> std::optional<Effect> {
  auto it = std::find_if(effectLibrary.begin(), effectLibrary.end(),
                         [id](const Effect &e) { return e.getId() == id; });
  if (it == effectLibrary.end()) {
    return std::nullopt;
  }
  return *it;
}
""")
sub("effect_by_id_find", PER, "#include <Types/include/Perception.h>\n", "#include <Types/include/Perception.h>\n#include <algorithm>\n")
fn("linearize_refs", PER, "auto Perception::linearizeLibrary(", """auto Perception::linearizeLibrary() -> void {
  for (auto &channel : channels) {
    for (int j = 0; j < static_cast<int>(channel.getBandsSize()); j++) {
      auto &band = channel.getBandAt(j);
      for (int k = 0; k < static_cast<int>(band.getEffectsSize()); k++) {
        auto &effect = band.getEffectAt(k);
        if (effect.getEffectType() != EffectType::Reference) {
          continue;
        }
        auto basis = getEffectById(effect.getId());
        if (!basis) {
          continue;
        }
        basis->setId(-1);
        basis->setPosition(effect.getPosition());
        band.replaceEffectAt(k, *basis);
      }
    }
  }
  effectLibrary.clear();
}
""")
fn("refactor_refs", PER, "auto Perception::refactorEffects(", """auto Perception::refactorEffects() -> void {
  const auto freeId = [this]() {
    auto newId = static_cast<int>(effectLibrary.size());
    while (getEffectById(newId).has_value()) {
      ++newId;
    }
    return newId;
  };
  for (int i = 0; i < static_cast<int>(channels.size()); i++) {
    auto numBands = static_cast<int>(channels[i].getBandsSize());
    for (int j = 0; j < numBands; j++) {
      if (getChannelAt(i).getBandAt(j).getBandType() == BandType::WaveletWave) {
        continue;
      }
      auto numEffects = static_cast<int>(getChannelAt(i).getBandAt(j).getEffectsSize());
      auto band = getChannelAt(i).getBandAt(j);
      for (int k = 0; k < numEffects; k++) {
        auto refEffect = band.getEffectAt(k);
        auto sameEffects = searchForEquivalentEffects(refEffect, i);
        if (sameEffects.size() <= 1) {
          continue;
        }
        auto newId = freeId();
        Effect basisEffect(refEffect);
        basisEffect.setId(newId);
        basisEffect.setPosition(0);
        for (auto &[l, m, n] : sameEffects) {
          auto &target = getChannelAt(l).getBandAt(m);
          Effect libEffect;
          libEffect.setEffectType(EffectType::Reference);
          libEffect.setId(newId);
          libEffect.setPosition(target.getEffectAt(n).getPosition());
          target.replaceEffectAt(n, libEffect);
        }
        effectLibrary.push_back(basisEffect);
      }
    }
  }
}
""")
fn("modality_table", PER, "auto Perception::convertToModality(", """auto Perception::convertToModality(const std::string &modalityString) -> PerceptionModality {
  auto it = stringToPerceptionModality.find(modalityString);
  if (it != stringToPerceptionModality.end()) {
    return it->second;
  }
  static const std::map<std::string, PerceptionModality> legacy = {
      {"Pressure effect", PerceptionModality::Pressure},
      {"Acceleration effect", PerceptionModality::Acceleration},
      {"Velocity effect", PerceptionModality::Velocity},
      {"Position effect", PerceptionModality::Position},
      {"Temperature effect", PerceptionModality::Temperature},
      {"Vibration effect", PerceptionModality::Vibrotactile},
      {"Vibrotactile effect", PerceptionModality::Vibrotactile},
      {"Water effect", PerceptionModality::Water},
      {"Wind effect", PerceptionModality::Wind},
      {"Kinesthetic effect", PerceptionModality::Force},
      {"Force effect", PerceptionModality::Force},
      {"Vibrotactile Texture effect", PerceptionModality::VibrotactileTexture},
      {"Texture effect", PerceptionModality::VibrotactileTexture},
      {"Stiffness effect", PerceptionModality::Stiffness},
      {"Friction effect", PerceptionModality::Friction}};
  auto it2 = legacy.find(modalityString);
  return it2 == legacy.end() ? PerceptionModality::Other : it2->second;
}
""")
sub("modality_table", PER, "#include <Types/include/Perception.h>\n", "#include <Types/include/Perception.h>\n#include <map>\n")
sub("refdev_helper", PER, """auto Perception::addReferenceDevice(
    const""", """template <class F, class O> static auto applyIf(const O &value, F setter) -> void {
  if (value.has_value()) {
    setter(value.value());
  }
}

auto Perception::addReferenceDevice(
    const""")
sub("refdev_helper", PER, """    if (std::get<maximumVoltageIndex>(values).has_value()) {
      myDevice.setMaximumVoltage(std::get<maximumVoltageIndex>(values).value());
    }
    if (std::get<maximumCurrentIndex>(values).has_value()) {
      myDevice.setMaximumCurrent(std::get<maximumCurrentIndex>(values).value());
    }
""", """    applyIf(std::get<maximumCurrentIndex>(values), [&](float x) { myDevice.setMaximumCurrent(x); });
    applyIf(std::get<maximumVoltageIndex>(values), [&](float x) { myDevice.setMaximumVoltage(x); });
""")
TOOLS = "source/Tools/src/Tools.cpp"
fn("linear2_delegate", TOOLS, "[[nodiscard]] auto linearInterpolation2(", """[[nodiscard]] auto linearInterpolation2(const std::vector<std::pair<int, double>> &points)
    -> std::vector<double> {
  return interpolationCodec(points, types::CurveType::Linear);
}
""")
fn("linear_clamp", TOOLS, "auto linearInterpolation(", """auto linearInterpolation(std::pair<int, double> a, std::pair<int, double> b, double x) -> double {
  if (x < a.first) {
    return a.second;
  }
  if (x > b.first) {
    return b.second;
  }
  double start = a.first;
  double end = b.first;
  auto [lo, hi] = std::make_pair(a.second, b.second);
  if (!(start < end)) {
    std::swap(start, end);
    std::swap(lo, hi);
  }
  const double width = end - start;
  return (hi * (x - start) + lo * (end - x)) / width;
}
""")
fn("chirp", TOOLS, "[[nodiscard]] auto chirpInterpolation(", """[[nodiscard]] auto chirpInterpolation(int start_time, int end_time, double start_frequency,
                                      double end_frequency, double position) -> double {
  if (start_time == end_time) {
    return end_frequency;
  }
  if (end_time < start_time) {
    return chirpInterpolation(end_time, start_time, end_frequency, start_frequency, position);
  }
  const double slope = (end_frequency - start_frequency) / (end_time - start_time);
  return start_frequency + (position - start_time) * slope / 2;
}
""")
sub("akima_for", TOOLS, """  for (size_t i = 0; i < dx.size(); i++) {
    dx[i] = points[i + 1].first - points[i].first;
    dy[i] = points[i + 1].second - points[i].second;
    m[i] = dy[i] / dx[i];
    m1[i + 2] = m[i];
  }
""", """  for (size_t i = 1; i < n; i++) {
    const auto &left = points[i - 1];
    const auto &right = points[i];
    dx[i - 1] = right.first - left.first;
    dy[i - 1] = right.second - left.second;
  }
  for (size_t i = 0; i < dx.size(); i++) {
    m[i] = dy[i] / dx[i];
    m1[i + 2] = m[i];
  }
""")
fn("is_number", TOOLS, "[[nodiscard]] auto isNumber(", """[[nodiscard]] auto isNumber(const std::string &s) -> bool {
  if (s.empty()) {
    return false;
  }
  for (char c : s) {
    if (std::isdigit(c) == 0) {
      return false;
    }
  }
  return true;
}
""")
INP = "source/Tools/src/InputParser.cpp"
fn("cmdoption_loop", INP, "[[nodiscard]] auto InputParser::getCmdOption(", """[[nodiscard]] auto InputParser::getCmdOption(const std::string &option) const
    -> const std::string & {
  static const std::string empty_string;
  for (size_t i = 0; i < tokens.size(); i++) {
    if (tokens[i] == option) {
      return i + 1 < tokens.size() ? tokens[i + 1] : empty_string;
    }
  }
  return empty_string;
}
""")
fn("fileext", INP, "auto InputParser::getFileExt(", """auto InputParser::getFileExt(std::string &filename) -> std::string {
  auto dot = filename.find_last_of('.');
  if (dot == std::string::npos) {
    return "";
  }
  return filename.substr(dot + 1);
}
""")
OHM = "source/Tools/src/OHMData.cpp"
fn("ohm_fill", OHM, "auto OHMData::fillString(", """auto OHMData::fillString(const std::string &text, const unsigned int numCharacters) -> std::string {
  std::string res = text.substr(0, numCharacters);
  res.resize(numCharacters, '\\0');
  return res;
}
""")
sub("ohm_text_helper", OHM, """auto OHMData::loadFile(const""", """static auto readText(std::istream &file, size_t size) -> std::string {
  std::string text(size, '\\0');
  file.read(&text[0], static_cast<std::streamsize>(size));
  text.erase(text.find_last_not_of('\\x00') + 1);
  return text;
}

auto OHMData::loadFile(const""")
sub("ohm_text_helper", OHM, """    std::array<char, fileNameByteSize> hapticObjectFileNameBytes{};
    file.read(hapticObjectFileNameBytes.data(), fileNameByteSize);
    element.elementFilename = std::string(hapticObjectFileNameBytes.data(), fileNameByteSize);
    element.elementFilename.erase(element.elementFilename.find_last_not_of('\\x00') + 1);
""", """    element.elementFilename = readText(file, fileNameByteSize);
""")
WAV = "source/FilterBank/src/Wavelet.cpp"
sub("wavelet_delegate", WAV, """  size_t inSize = in.size();

  // symmetric extension
  auto lext = (long)floor((double)hSize / 2); // floor: if h has odd length
  std::vector<double> temp(in.begin(), in.end());
  std::vector<double> temp_l(in.begin() + 1, in.begin() + lext + 1);
  std::vector<double> temp_r(in.end() - lext - 1, in.end() - 1);

  std::reverse(temp_l.begin(), temp_l.end());
  std::reverse(temp_r.begin(), temp_r.end());
  temp.insert(temp.begin(), temp_l.begin(), temp_l.end());
  temp.insert(temp.end(), temp_r.begin(), temp_r.end());

  auto extension = 2 * lext;
  std::vector<double> conv(inSize + hSize - 1 + extension, 0);
  conv1D(temp, h, conv);
  for (uint32_t i = 0; i < inSize; i++) {
    out[i] += conv[i + hSize - 1];
  }
""", """  std::vector<double> filtered(in.size(), 0);
  symconv1D(in, h, filtered);
  for (size_t i = 0; i < in.size(); i++) {
    out[i] = out[i] + filtered[i];
  }
""")
sub("dwt_order", WAV, """    symconv1D(x_temp, hp, h);
    symconv1D(x_temp, lp, l);
""", """    symconv1D(x_temp, lp, l);
    symconv1D(x_temp, hp, h);
""")
sub("dwt_order", WAV, """    auto out_ind = 0;
    auto out_add = len >> 1;
    for (uint32_t j = 0; j < len; j += 2) {
      out[out_ind] = l[j];
      out[out_ind + out_add] = h[j + 1];
      x[out_ind] = l[j];
      out_ind++;
    }
""", """    const size_t half = len / 2;
    for (size_t k = 0; k < half; k++) {
      x[k] = l[2 * k];
      out[k] = l[2 * k];
      out[half + k] = h[2 * k + 1];
    }
""")
WEN = "source/Encoder/src/WaveletEncoder.cpp"
fn("wenc_findmin", WEN, "auto WaveletEncoder::findMinInd(", """auto WaveletEncoder::findMinInd(std::vector<double> &data) -> size_t {
  size_t best = 0;
  for (size_t i = 1; i < data.size(); i++) {
    if (data[i] < data[best]) {
      best = i;
    }
  }
  return best;
}
""")
sub("wenc_quant", WEN, """    double sign = sgn(in[i]);
    if (max == 0) {
      out[i] = 0;
    } else {
      double q = sign * delta * floor(fabs(in[i]) / delta + QUANT_ADD);
      if (fabs(q) > max_q) {
        out[i] = sign * max_q;
      } else {
        out[i] = q;
      }
    }
""", """    if (max == 0) {
      out[i] = 0;
      continue;
    }
    const double sign = sgn(in[i]);
    double q = sign * delta * floor(fabs(in[i]) / delta + QUANT_ADD);
    out[i] = fabs(q) > max_q ? sign * max_q : q;
""")
JS = "source/IOHaptics/src/IOJson.cpp"
fn("version_flat", JS, "auto IOJson::versionCheck(", """auto IOJson::versionCheck(const std::string &version, bool log) -> bool {
  const auto fail = [log](const char *message) {
    if (log) {
      std::cerr << message << std::endl;
    }
    return false;
  };
  const std::regex txt_regex("^([0-9]{4})(-([0-9]))?$");
  std::smatch m;
  if (!std::regex_search(version, m, txt_regex)) {
    return fail("Invalid version, the value should match the following format: XXXX or XXXX-Y, "
                "where XXXX is the year of publication and Y is the amendment number, if any.");
  }
  if (atoi(m[1].str().c_str()) < MIN_VERSION_YEAR) {
    return fail("Invalid version, the year should be greater or equal to 2023.");
  }
  const std::string amendment = m[3].str();
  if (!amendment.empty() && atoi(amendment.c_str()) <= 0) {
    return fail("Invalid version, the amendment should be greater than 0.");
  }
  return true;
}
""")
fn("avatar_check", JS, "auto IOJson::semanticConformanceCheckAvatar(", """auto IOJson::semanticConformanceCheckAvatar(types::Avatar &avatar, types::Haptics &haptic) -> bool {
  const auto id = avatar.getId();
  int others = 0;
  for (int i = 0, n = static_cast<int>(haptic.getAvatarsSize()); i < n; ++i) {
    others += haptic.getAvatarAt(i).getId() == id ? 1 : 0;
  }
  const bool reserved = id == 0;
  const bool duplicated = others > 1;
  if (reserved) {
    std::cerr << "Invalid avatar id. Id 0 is reserved for unspecified avatars." << std::endl;
  }
  if (duplicated) {
    std::cerr << "Invalid avatar id. Id " << id << " is not unique." << std::endl;
  }
  bool conformant = !reserved && !duplicated;
  if (auto mesh = avatar.getMesh()) {
    conformant = URICheck(*mesh, true) && conformant;
  }
  return conformant;
}
""")
PRI = "source/IOHaptics/src/IOBinaryPrimitives.cpp"
fn("bin_readstring", PRI, "auto IOBinaryPrimitives::readString(", """auto IOBinaryPrimitives::readString(std::istream &file, std::vector<bool> &unusedBits)
    -> std::string {
  const int size = readNBits<uint8_t, BYTE_SIZE>(file, unusedBits);
  std::string str;
  str.reserve(size);
  for (int i = 0; i < size; ++i) {
    str.push_back(readNBits<char, BYTE_SIZE>(file, unusedBits));
  }
  return str;
}
""")
fn("bin_writestring", PRI, "auto IOBinaryPrimitives::writeString(", """auto IOBinaryPrimitives::writeString(const std::string &text, std::vector<bool> &output) -> void {
  const size_t limit = std::min<size_t>(text.size(), UINT8_MAX);
  writeNBits<uint8_t, BYTE_SIZE>(static_cast<uint8_t>(limit), output);
  for (size_t i = 0; i < limit; i++) {
    const auto byte = static_cast<uint8_t>(text[i]);
    for (int bit = BYTE_SIZE - 1; bit >= 0; bit--) {
      output.push_back((byte >> bit & 1) != 0);
    }
  }
}
""")
sub("bin_writestring", PRI, "namespace haptics::io {\n", "#include <algorithm>\nnamespace haptics::io {\n")
BIN = "source/IOHaptics/src/IOBinary.cpp"
fn("bin_avatars", BIN, "auto IOBinary::readAvatars(", """auto IOBinary::readAvatars(types::Haptics &haptic, std::istream &file,
                           std::vector<bool> &unusedBits) -> bool {
  int remaining =
      IOBinaryPrimitives::readNBits<unsigned short, MDEXP_AVATAR_COUNT>(file, unusedBits);
  while (remaining-- > 0) {
    auto id = IOBinaryPrimitives::readNBits<short, AVATAR_ID>(file, unusedBits);
    auto lod = IOBinaryPrimitives::readNBits<uint8_t, AVATAR_LOD>(file, unusedBits);
    auto type = static_cast<types::AvatarType>(
        IOBinaryPrimitives::readNBits<uint8_t, AVATAR_TYPE>(file, unusedBits));
    types::Avatar avatar(id, lod, type);
    if (type == types::AvatarType::Custom) {
      std::string uri = IOBinaryPrimitives::readString(file, unusedBits);
      avatar.setMesh(uri);
    }
    haptic.addAvatar(avatar);
  }
  return true;
}
""")
fn("bin_wavatars", BIN, "auto IOBinary::writeAvatars(", """auto IOBinary::writeAvatars(types::Haptics &haptic, std::vector<bool> &output) -> bool {
  const auto count = static_cast<unsigned short>(haptic.getAvatarsSize());
  IOBinaryPrimitives::writeNBits<unsigned short, MDEXP_AVATAR_COUNT>(count, output);
  for (int i = 0; i < count; ++i) {
    types::Avatar &avatar = haptic.getAvatarAt(i);
    const auto type = avatar.getType();
    IOBinaryPrimitives::writeNBits<short, AVATAR_ID>(static_cast<short>(avatar.getId()), output);
    IOBinaryPrimitives::writeNBits<uint8_t, AVATAR_LOD>(avatar.getLod(), output);
    IOBinaryPrimitives::writeNBits<uint8_t, AVATAR_TYPE>(static_cast<uint8_t>(type), output);
    if (type == types::AvatarType::Custom) {
      const auto mesh = avatar.getMesh();
      IOBinaryPrimitives::writeString(mesh.has_value() ? *mesh : std::string(), output);
    }
  }
  return true;
}
""")
sub("bin_header_helper", BIN, """auto IOBinary::readFileHeader(types::Haptics &haptic, std::istream &file,""", """static auto readExperience(types::Haptics &haptic, std::istream &file,
                           std::vector<bool> &unusedBits) -> void {
  std::string text = IOBinaryPrimitives::readString(file, unusedBits);
  haptic.setVersion(text);
  text = IOBinaryPrimitives::readString(file, unusedBits);
  haptic.setProfile(text);
  haptic.setLevel(IOBinaryPrimitives::readNBits<uint8_t, LEVEL>(file, unusedBits));
  text = IOBinaryPrimitives::readString(file, unusedBits);
  haptic.setDate(text);
  text = IOBinaryPrimitives::readString(file, unusedBits);
  haptic.setDescription(text);
}

auto IOBinary::readFileHeader(types::Haptics &haptic, std::istream &file,""")
sub("bin_header_helper", BIN, """  std::string version = IOBinaryPrimitives::readString(file, unusedBits);
  std::string profile = IOBinaryPrimitives::readString(file, unusedBits);
  auto level = IOBinaryPrimitives::readNBits<uint8_t, LEVEL>(file, unusedBits);
  std::string date = IOBinaryPrimitives::readString(file, unusedBits);
  std::string description = IOBinaryPrimitives::readString(file, unusedBits);
  haptic.setVersion(version);
  haptic.setProfile(profile);
  haptic.setLevel(level);
  haptic.setDate(date);
  haptic.setDescription(description);

  // Get avatars
  if (!IOBinary::readAvatars(haptic, file, unusedBits)) {
    return false;
  }

  // Get perceptions
  return IOBinary::readPerceptionsHeader(haptic, file, unusedBits);
""", """  readExperience(haptic, file, unusedBits);
  return readAvatars(haptic, file, unusedBits) && readPerceptionsHeader(haptic, file, unusedBits);
""")

STR = "source/IOHaptics/src/IOStream.cpp"
STH = "source/IOHaptics/include/IOStream.h"
BND = "source/IOHaptics/src/IOBinaryBands.cpp"
WRITEBITS = """namespace haptics::io {
template <size_t N> static auto writeBits(uint64_t value, std::vector<bool> &out) -> void {
  const std::bitset<N> bits(value);
  IOBinaryPrimitives::writeStrBits(bits.to_string(), out);
}
"""
sub("stream_writebits", STR, "namespace haptics::io {\n", WRITEBITS)
rx("stream_writebits", STR, r"std::bitset<([^<>;]+)> (\w+)\(([^;]*)\);\s*(?:const )?std::string (?!valueStr)(\w+) = \2\.to_string\(\);\s*IOBinaryPrimitives::writeStrBits\(\4, (\w+)\);", r"writeBits<\1>(\3, \5);")
WB2 = """namespace haptics::io {
template <size_t N> static auto writeBits(uint64_t value, std::vector<bool> &out) -> void {
  for (size_t i = N; i > 0; i--) {
    out.push_back(((value >> (i - 1)) & 1U) != 0);
  }
}
"""
sub("stream_shiftbits", STR, "namespace haptics::io {\n", WB2)
rx("stream_shiftbits", STR, r"std::bitset<(MD[A-Z_0-9]+|AVATAR_[A-Z]+|REFDEV_\w+)> (\w+)\(([^;]*)\);\s*(?:const )?std::string (?!valueStr)(\w+) = \2\.to_string\(\);\s*IOBinaryPrimitives::writeStrBits\(\4, (\w+)\);", r"writeBits<\1>(\3, \5);")

sub("stream_sync_helper", STR, "auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>> &bitstream,", """struct SyncState {
  types::Sync next;
  int idx = 0;
};
static auto pushUnit(std::vector<std::vector<bool>> &units, const std::vector<bool> &unit) -> void {
  units.emplace_back(unit);
}

auto IOStream::writeUnits(types::Haptics &haptic, std::vector<std::vector<bool>> &bitstream,""")
sub("stream_sync_helper", STR, "  types::Sync nextSync;\n  int syncIdx = 0;\n  getNextSync(haptic, nextSync, syncIdx);\n", """  SyncState state;
  getNextSync(haptic, state.next, state.idx);
  auto resync = [&]() -> void {
    if (state.idx == -1 || swriter.time != state.next.getTimestamp()) {
      return;
    }
    std::vector<bool> unit;
    writeMIHSUnit(MIHSUnitType::Initialization, initPackets, unit, swriter);
    getNextSync(haptic, state.next, state.idx);
    pushUnit(bitstream, unit);
  };
""")
rx("stream_sync_helper", STR, r"if \(syncIdx != -1 && swriter.time == nextSync.getTimestamp\(\)\) \{.*?\n *bitstream.push_back\(syncUnit\);\s*\}", "resync();", 3)

sub("stream_packet_helper", STR, "auto IOStream::writeMIHSPacket(MIHSPacketType mihsPacketType, StreamWriter", """auto IOStream::appendPacket(MIHSPacketType type, const std::vector<bool> &payload,
                            std::vector<std::vector<bool>> &bitstream) -> void {
  std::vector<bool> packet;
  writeMIHSPacketHeader(type, static_cast<int>(payload.size()), packet);
  packet.insert(packet.end(), payload.begin(), payload.end());
  padToByteBoundary(packet);
  bitstream.push_back(packet);
}

auto IOStream::writeMIHSPacket(MIHSPacketType mihsPacketType, StreamWriter""")
rx("stream_packet_helper", STR, r"writeMIHSPacketHeader\(mihsPacketType, static_cast<int>\((\w+).size\(\)\),\s*mihsPacketHeader\);\s*mihsPacketHeader.insert\(mihsPacketHeader.end\(\), \1.begin\(\),\s*\1.end\(\)\);\s*padToByteBoundary\(mihsPacketHeader\);\s*(bitstream.clear\(\);\s*)?bitstream.push_back\(mihsPacketHeader\);(\s*mihsPacketHeader.clear\(\);)?", r"\2appendPacket(mihsPacketType, \1, bitstream);")
sub("stream_packet_helper", STH, "  static auto padToByteBoundary(", "  static auto appendPacket(MIHSPacketType type, const std::vector<bool> &payload,\n                           std::vector<std::vector<bool>> &bitstream) -> void;\n  static auto padToByteBoundary(")

fn("stream_meta_read", STR, "auto IOStream::readMetadataHaptics(", """static auto readText(std::vector<bool> &bits, int &index, int lengthBits) -> std::string {
  const int length = IOBinaryPrimitives::readUInt(bits, index, lengthBits);
  return IOBinaryPrimitives::readString(bits, index, length);
}
auto IOStream::readMetadataHaptics(types::Haptics &haptic, std::vector<bool> &bitstream) -> bool {
  int index = 0;
  std::string text = readText(bitstream, index, MDEXP_VERSION);
  haptic.setVersion(text);
  text = readText(bitstream, index, MDEXP_PROFILE_SIZE);
  haptic.setProfile(text);
  haptic.setLevel(IOBinaryPrimitives::readUInt(bitstream, index, MDEXP_LEVEL));
  text = readText(bitstream, index, MDEXP_DATE);
  haptic.setDate(text);
  text = readText(bitstream, index, MDEXP_DESC_SIZE);
  haptic.setDescription(text);
  index += MDEXP_PERC_COUNT;
  const int avatarCount = IOBinaryPrimitives::readUInt(bitstream, index, MDEXP_AVATAR_COUNT);
  std::vector<types::Avatar> avatars;
  std::vector<bool> rest(bitstream.begin() + index, bitstream.end());
  const bool ok = readListObject(rest, avatarCount, avatars);
  if (ok) {
    for (size_t i = 0; i < avatars.size(); i++) {
      haptic.addAvatar(avatars[i]);
    }
  }
  return ok;
}
""")
rx("stream_rename", STR, r"\b(readEffectBasis|writeEffectBasis|readKeyframe|writeKeyframe|readAvatar|writeLibraryEffect|searchBandInHaptic|padToByteBoundary)\b", r"\1Impl")
rx("stream_rename", STH, r"\b(readEffectBasis|writeEffectBasis|readKeyframe|writeKeyframe|readAvatar|writeLibraryEffect|searchBandInHaptic|padToByteBoundary)\b", r"\1Impl")
rx("stream_loops", STR, r"for \(auto (\w) = 0; \1 < static_cast<int>\(([\w.()]+)\);\s*\1\+\+\) \{", r"const auto limit_\1 = static_cast<int>(\2);\n  for (int \1 = 0; \1 != limit_\1; ++\1) {")
fn("stream_search", STR, "auto IOStream::searchPerceptionInHaptic(", """auto IOStream::searchPerceptionInHaptic(types::Haptics &haptic, int id) -> int {
  const int n = static_cast<int>(haptic.getPerceptionsSize());
  int i = 0;
  while (i < n && haptic.getPerceptionAt(i).getId() != id) {
    i++;
  }
  return i < n ? i : -1;
}
""")
fn("stream_search", STR, "auto IOStream::searchBandInHaptic(", """auto IOStream::searchBandInHaptic(StreamReader &sreader, int id) -> int {
  auto it = std::find_if(sreader.bandStreamsHaptic.begin(), sreader.bandStreamsHaptic.end(),
                         [id](const BandStream &b) { return b.id == id; });
  return it == sreader.bandStreamsHaptic.end() ? -1 : it->index;
}
""")
sub("stream_search", STR, "#include <IOHaptics/include/IOStream.h>\n", "#include <IOHaptics/include/IOStream.h>\n#include <algorithm>\n")
fn("stream_add_effect", STR, "auto IOStream::addEffectToHaptic(", """auto IOStream::addEffectToHaptic(types::Haptics &haptic, int perceptionIndex, int channelIndex,
                                 int bandIndex, std::vector<types::Effect> &effects) -> bool {
  types::Band &band =
      haptic.getPerceptionAt(perceptionIndex).getChannelAt(channelIndex).getBandAt(bandIndex);
  for (auto &effect : effects) {
    if (effect.getEffectType() != types::EffectType::Basis) {
      band.addEffect(effect);
      continue;
    }
    int found = -1;
    for (int i = 0; i < static_cast<int>(band.getEffectsSize()) && found < 0; i++) {
      if (band.getEffectAt(i).getId() == effect.getId()) {
        found = i;
      }
    }
    if (found < 0) {
      band.addEffect(effect);
    } else {
      types::Effect &known = band.getEffectAt(found);
      for (size_t j = 0; j < effect.getKeyframesSize(); j++) {
        known.addKeyframe(effect.getKeyframeAt(static_cast<int>(j)));
      }
    }
  }
  return true;
}
""")
fn("stream_ids", STR, "auto IOStream::setNextEffectId(", """auto IOStream::setNextEffectId(std::vector<int> &effectsId, types::Effect &effect) -> bool {
  effect.setId(getNextEffectId(effectsId));
  return true;
}
""")
fn("stream_ids", STR, "auto IOStream::padToByteBoundary(", """auto IOStream::padToByteBoundary(std::vector<bool> &bitstream) -> void {
  while (bitstream.size() % BYTE_SIZE != 0) {
    bitstream.push_back(false);
  }
}
""")
fn("stream_effect_ids", STR, "auto IOStream::getEffectsId(", """auto IOStream::getEffectsId(types::Haptics &haptic) -> std::vector<int> {
  std::vector<int> effectsId;
  for (int i = 0; i < static_cast<int>(haptic.getPerceptionsSize()); i++) {
    types::Perception &perception = haptic.getPerceptionAt(i);
    for (int j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
      types::Channel &channel = perception.getChannelAt(j);
      for (int k = 0; k < static_cast<int>(channel.getBandsSize()); k++) {
        types::Band &band = channel.getBandAt(k);
        for (int l = 0; l < static_cast<int>(band.getEffectsSize()); l++) {
          const int id = band.getEffectAt(l).getId();
          if (id == -1) {
            continue;
          }
          effectsId.push_back(id);
        }
      }
    }
  }
  return effectsId;
}
""")
sub("stream_spatial_bool", STR, """    bool spatial = false;
    if (modality == types::PerceptionModality::VibrotactileTexture ||
        modality == types::PerceptionModality::Stiffness ||
        modality == types::PerceptionModality::Friction) {
      spatial = true;
    }
""", """    const bool spatial = isSpatial(modality);
""")
sub("stream_spatial_bool", STR, "auto IOStream::writeData(StreamWriter &swriter", """static auto isSpatial(types::PerceptionModality modality) -> bool {
  switch (modality) {
  case types::PerceptionModality::VibrotactileTexture:
  case types::PerceptionModality::Stiffness:
  case types::PerceptionModality::Friction:
    return true;
  default:
    return false;
  }
}
auto IOStream::writeData(StreamWriter &swriter""")
sub("stream_spatial_bool", STR, """          writeSpatialData(swriter, bandBitstream);
          expBitstream.push_back(bandBitstream);
          bandBitstream.clear();
        } else {
          linearizeTimeline(swriter.bandStream.band);
          packetizeBand(swriter, bandBitstream);
          expBitstream.push_back(bandBitstream);
          bandBitstream.clear();
        }
""", """          writeSpatialData(swriter, bandBitstream);
        } else {
          linearizeTimeline(swriter.bandStream.band);
          packetizeBand(swriter, bandBitstream);
        }
        expBitstream.push_back(bandBitstream);
        bandBitstream.clear();
""")
sub("stream_semantic_helper", STR, "auto IOStream::writeEffectHeader(StreamWriter &swriter)", """static auto writeSemantic(const std::optional<std::string> &semantic, std::vector<bool> &bits)
    -> void {
  const bool present = semantic.has_value();
  IOBinaryPrimitives::writeStrBits(present ? "1" : "0", bits);
  if (present) {
    const auto code = static_cast<int>(types::stringToEffectSemantic.at(*semantic));
    IOBinaryPrimitives::writeStrBits(
        std::bitset<EFFECT_SEMANTIC_LAYER_1 + EFFECT_SEMANTIC_LAYER_2>(code).to_string(), bits);
  }
}

auto IOStream::writeEffectHeader(StreamWriter &swriter)""")
rx("stream_semantic_helper", STR, r"if \(swriter.bandStream.band.getEffectAt\(0\).getSemantic\(\).has_value\(\)\) \{.*?writeStrBits\(flagSemanticStr, packetBits\);\s*\}\n", "writeSemantic(swriter.bandStream.band.getEffectAt(0).getSemantic(), packetBits);\n", 1)
rx("stream_semantic_helper", STR, r"if \(swriter.effects\[l\].getSemantic\(\).has_value\(\)\) \{.*?\} else \{.*?writeStrBits\(flagSemanticStr, packetBits\);\s*\}\n", "writeSemantic(swriter.effects[l].getSemantic(), packetBits);\n", 1)

rx("json_hasint", JS, r"IOJsonPrimitives::has(Int|Uint|String|Number|Array|Bool|Object)\((\w+), (\"\w+\")\)", r'(\2.HasMember(\3) && \2[\3].Is\1())')
rx("json_helpers", JS, r"(!?)\b(json(?!Tree|Vector)\w+)\.HasMember\((\"\w+\")\) && \2\[\3\]\.Is(Int|Uint|String|Number|Array)\(\)", r"\1IOJsonPrimitives::has\4(\2, \3)")
rx("json_helpers", JS, r"!(json(?!Tree|Vector)\w+)\.HasMember\((\"\w+\")\) \|\|\s*!\1\[\2\]\.Is(Int|Uint|String|Number|Array)\(\)", r"!IOJsonPrimitives::has\3(\1, \2)")
fn("json_channels_nest", JS, "auto IOJson::loadSyncs(", """auto IOJson::loadSyncs(const rapidjson::Value &jsonSyncs, types::Haptics &haptic) -> bool {
  for (rapidjson::SizeType i = 0; i < jsonSyncs.Size(); i++) {
    const auto &jsonSync = jsonSyncs[i];
    if (jsonSync.IsObject()) {
      if (jsonSync.HasMember("timestamp") && jsonSync["timestamp"].IsInt()) {
        types::Sync sync(jsonSync["timestamp"].GetInt());
        if (jsonSync.HasMember("timescale")) {
          if (!jsonSync["timescale"].IsUint()) {
            std::cerr << "Invalid sync timescale" << std::endl;
          } else {
            sync.setTimescale(jsonSync["timescale"].GetUint());
          }
        }
        haptic.addSync(sync);
      } else {
        std::cerr << "Missing or invalid sync timestamp" << std::endl;
      }
    } else {
      std::cerr << "Invalid sync: not an object" << std::endl;
    }
  }
  return true;
}
""")
rx("json_rename_vars", JS, r"\b(loadingSuccess)\b", "success")
rx("json_rename_vars", JS, r"success = success && (\w+\([^;]*\));", r"if (success) {\n success = \1;\n}")
rx("json_find", JS, r"(types::stringTo\w+)\.count\((json\w+\[\"\w+\"\]\.GetString\(\))\) == 0", r"\1.find(\2) == \1.end()")
rx("json_find", JS, r"(types::stringTo\w+)\.count\((\w+)\) != 0", r"\1.find(\2) != \1.end()")
sub("band_body_alias", BND, """    if ((myEffect.getEffectType() == types::EffectType::Basis &&
         band.getBandType() == types::BandType::WaveletWave)) {""", """    const bool implicitPosition =
        myEffect.getEffectType() == types::EffectType::Basis && band.getBandType() == types::BandType::WaveletWave;
    if (implicitPosition) {""")
sub("bits_msb", "source/IOHaptics/include/IOBinaryPrimitives.h", """      output.push_back((value >> (bitCount - i - 1)) & 1U);""", """      const size_t shift = bitCount - 1 - i;
      output.push_back(((value >> shift) & 1U) != 0);""")
sub("bits_readuint", "source/IOHaptics/include/IOBinaryPrimitives.h", """    std::string tsBits;
    for (int i = startIdx; i < startIdx + length; i++) {
      if ((bitstream[i])) {
        tsBits += "1";
      } else {
        tsBits += "0";
      }
    }
    startIdx += length;
    auto inv = std::stoul(tsBits, nullptr, 2);
    return static_cast<int>(inv);""", """    std::string digits;
    const int stop = startIdx + length;
    while (startIdx < stop) {
      digits += bitstream[startIdx] ? "1" : "0";
      startIdx++;
    }
    return static_cast<int>(std::stoul(digits, nullptr, 2));""")
SPD = "source/Spiht/src/Spiht_Dec.cpp"
SPH = "source/Spiht/include/Spiht_Dec.h"
for f in (SPD, SPH):
    rx("spiht_rename", f, r"\bLSP\b", "significant")
    rx("spiht_rename", f, r"\bLIP\b", "insignificant")
sub("spiht_decode_for", SPD, """  int n = n_real;
  while (0 <= n) {
    int compare = 1 << n; // 2^n
    int LSP_index = (int)LSP.size();

    sortingPass(out, origlength, compare);

    refinementPass(out, LSP_index, compare);

    n--;
  }
""", """  for (int n = n_real; n >= 0; --n) {
    const int threshold = 1 << n;
    const auto known = static_cast<int>(LSP.size());
    sortingPass(out, origlength, threshold);
    refinementPass(out, known, threshold);
  }
""")
sub("spiht_sign", SPD, """        if (getBit(CONTEXT_4) == 1) {
          LSP.push_back(index);
          if (getBit(CONTEXT_1) == 1) {
            out[index] = compare;
          } else {
            out[index] = -compare;
          }
        } else {
          LIP.push_back(index);
        }
""", """        if (getBit(CONTEXT_4) != 1) {
          LIP.push_back(index);
        } else {
          LSP.push_back(index);
          out[index] = getBit(CONTEXT_1) == 1 ? compare : -compare;
        }
""", 2)
WDEC = "source/WaveletDecoder/src/WaveletDecoder.cpp"
sub("wdec_loop", WDEC, """  std::transform(block_dwt.begin(), block_dwt.end(), block_scaled.begin(),
                 [scalar](int d) -> double { return (double)d * scalar; });
""", """  for (size_t i = 0; i < block_dwt.size(); i++) {
    block_scaled[i] = scalar * static_cast<double>(block_dwt[i]);
  }
""")
sub("wdec_copy", WDEC, """    std::copy(block_time.begin(), block_time.end(),
              sig_rec.begin() +
                  (long)effect.getPosition() * band.getUpperFrequencyLimit() / timescale);
""", """    const long start = (long)effect.getPosition() * band.getUpperFrequencyLimit() / timescale;
    for (int i = 0; i < bl; i++) {
      sig_rec[start + i] = block_time[i];
    }
""")
CHA = "source/Types/src/Channel.cpp"
fn("channel_band_ref", CHA, "auto Channel::replaceBandMetadataAt(", """auto Channel::replaceBandMetadataAt(int index, haptics::types::Band &newBand) -> bool {
  if (index >= 0 && index < static_cast<int>(bands.size())) {
    Band &target = bands[index];
    const auto kind = newBand.getBandType();
    target.setBandType(kind);
    switch (kind) {
    case BandType::Curve:
      target.setCurveType(newBand.getCurveTypeOrDefault());
      break;
    case BandType::WaveletWave:
      target.setBlockLength(newBand.getBlockLengthOrDefault());
      break;
    default:
      break;
    }
    target.setUpperFrequencyLimit(newBand.getUpperFrequencyLimit());
    target.setLowerFrequencyLimit(newBand.getLowerFrequencyLimit());
    return true;
  }
  return false;
}
""")
rx("channel_value_or", CHA, r"if \((\w+)\.has_value\(\)\) \{\s*return \1\.value\(\);\s*\}\s*return ([^;]+);", r"return \1 ? *\1 : \2;")
KF = "source/Types/src/Keyframe.cpp"
fn("keyframe_eq", KF, "auto Keyframe::operator==(", """auto Keyframe::operator==(const Keyframe &keyframe) -> bool {
  if (frequencyModulation != keyframe.frequencyModulation) {
    return false;
  }
  return relativePosition == keyframe.relativePosition &&
         keyframe.amplitudeModulation == amplitudeModulation;
}
""")

SPD, SPE, ARD, ARE = ("source/Spiht/src/%s.cpp" % x for x in ("Spiht_Dec", "Spiht_Enc", "ArithDec", "ArithEnc"))
rx("spiht_children_loop", SPE, r"""          int index = 2 \* \(int\)y;
          if .*?          // Grandchildren""", """          for (int side = 0; side < 2; side++) {
            const int index = 2 * (int)y + side;
            const bool significant = compare <= abs(instream[index]);
            addToOutput(significant ? 1 : 0, CONTEXT_4, outstream, context);
            if (!significant) {
              LIP.push_back(index);
              continue;
            }
            LSP.push_back(index);
            addToOutput((char)(instream[index] >= 0), CONTEXT_1, outstream, context);
          }
          // Grandchildren""")
EDITS["spiht_children_loop"][-1] = ("rx", SPE, r"(?s)" + EDITS["spiht_children_loop"][-1][2], EDITS["spiht_children_loop"][-1][3], 0)
fn("spiht_refine_for", SPD, "void Spiht_Dec::refinementPass(", """void Spiht_Dec::refinementPass(std::vector<int> &out, int LSP_index, int compare) {
  auto position = LSP.begin();
  for (int done = 0; done < LSP_index; ++done, ++position) {
    int &value = out[*position];
    if (getBit(CONTEXT_6) != 1) {
      continue;
    }
    if (value > 0) {
      value += compare;
    } else if (value < 0) {
      value -= compare;
    }
  }
}
""")
rx("arith_dec_helper", ARD, r"(?s)    if \(range_upper <= HALF\) \{.*?\} else \{\n      break;\n    \}\n", """    int offset = 0;
    if (range_upper <= HALF) {
      offset = 0;
    } else if (range_lower >= HALF) {
      offset = HALF;
    } else if (range_lower >= FIRST_QTR && range_upper <= THIRD_QTR) {
      offset = FIRST_QTR;
    } else {
      break;
    }
    range_lower = (range_lower - offset) * 2;
    range_upper = (range_upper - offset) * 2;
    in_leading = (in_leading - offset) * 2;
    if (in_index < max_index) {
      in_leading += instream.at(in_index);
      in_index++;
    }
""")
rx("arith_enc_follow", ARE, r"(?s)        if \(bits_to_follow > 0\) \{\n          outstream.push_back\(0\);.*?\} else \{\n          outstream.push_back\(0\);\n        \}", """        outstream.push_back(0);
        outstream.insert(outstream.end(), bits_to_follow, 1);
        bits_to_follow = 0;""")
fn("spiht_init_lists", SPD, "void Spiht_Dec::initLists(", """void Spiht_Dec::initLists(int origlength, int level) {
  const int bandsize = 2 << ((int)log2((double)origlength) - level);
  const int half = bandsize / 2;
  LSP.clear();
  LIP.clear();
  LIS1.clear();
  LIS2.clear();
  for (int i = 0; i < bandsize; i++) {
    LIP.push_back(i);
    if (i >= half) {
      LIS1.push_back(i);
      LIS2.push_back(0);
    }
  }
}
""")
rx("spiht_zero_any", SPE, r"(?s)  bool zeros = true;\n  for .*?  if \(zeros\) \{\n    return;\n  \}\n", """  if (std::all_of(block.begin(), block.end(), [](int v) { return v == 0; })) {
    return;
  }
""")
rx("spiht_zero_any", SPE, r"#include <Spiht/include/Spiht_Enc.h>", "#include <Spiht/include/Spiht_Enc.h>\n#include <algorithm>")
rx("arith_counters_fill", ARD, r"(?s)void ArithDec::resetCounter\(\) \{.*?\n\}", """void ArithDec::resetCounter() {
  counter.fill(RESET_HALF);
  counter_total.fill(RESET_TOTAL);
}""")
rx("spiht_lip_while", SPE, r"(?s)    std::list<int>::iterator it;\n    for \(it = LIP.begin\(\); it != LIP.end\(\);\) \{", """    auto it = LIP.begin();
    while (it != LIP.end()) {""")
AHE = "source/Encoder/src/AhapEncoder.cpp"
IVE = "source/Encoder/src/IvsEncoder.cpp"
rx("ahap_helper_event", AHE, r"    if \(e\.IsObject\(\) && e\.HasMember\(\"Event\"\) && e\[\"Event\"\]\.IsObject\(\) &&\n\s+e\[\"Event\"\]\.HasMember\(\"EventType\"\)\) \{",
   "    if (hasTyped(e, \"Event\", \"EventType\")) {", 1)
rx("ahap_helper_event", AHE, r"    if \(e\.IsObject\(\) && e\.HasMember\(\"ParameterCurve\"\) && e\[\"ParameterCurve\"\]\.IsObject\(\) &&\n\s+e\[\"ParameterCurve\"\]\.HasMember\(\"ParameterID\"\)\) \{",
   "    if (hasTyped(e, \"ParameterCurve\", \"ParameterID\")) {", 1)
rx("ahap_helper_event", AHE, r"namespace haptics::encoder \{\n", """namespace haptics::encoder {

namespace {
auto hasTyped(const rapidjson::Value &entry, const char *kind, const char *tag) -> bool {
  return entry.IsObject() && entry.HasMember(kind) && entry[kind].IsObject() &&
         entry[kind].HasMember(tag);
}
} // namespace
""", 1)
sub("ahap_index_points", AHE, """  for (auto &kahap : parameterCurve["ParameterCurveControlPoints"].GetArray()) {
""", """  auto points = parameterCurve["ParameterCurveControlPoints"].GetArray();
  for (rapidjson::SizeType n = 0; n < points.Size(); n++) {
    const auto &kahap = points[n];
""", 1)
rx("ahap_keyframe_pair", AHE, r"    std::pair<int, double> k;\n.*?keyframes->push_back\(k\);", """    const double start = parameterCurve["Time"].GetDouble();
    const int tick = static_cast<int>((start + kahap["Time"].GetDouble()) * (double)timescale);
    keyframes->emplace_back(tick, kahap["ParameterValue"].GetDouble());""", 1)
rx("ahap_transient_find_loop", AHE, r"    auto first_kf_f =\n        std::find_if\(frequencies->begin\(\), frequencies->end\(\),\n.*?\}\);\n", """    auto first_kf_f = frequencies->begin();
    while (first_kf_f != frequencies->end() && first_kf_f->first < t.getPosition()) {
      ++first_kf_f;
    }
""", 1)
rx("ahap_transient_range", AHE, r"    auto pos = e\.getPosition\(\);\n    for \(int i = 0; i < static_cast<int>\(e\.getKeyframesSize\(\)\); i\+\+\) \{\n      auto keyframe = e\.getKeyframeAt\(i\);\n(.*?)    \}\n",
   """    const int count = static_cast<int>(e.getKeyframesSize());
    int i = 0;
    while (i < count) {
      auto keyframe = e.getKeyframeAt(i++);
      keyframe.setRelativePosition(e.getPosition() + keyframe.getRelativePosition().value_or(0));
      transientEffect.addKeyframe(keyframe);
    }
""", 1)
rx("ahap_sharpness_lambda", AHE, r"      double freq_d = it->second \+ base_freq;\n      freq_d = std::clamp\(freq_d, BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX\);\n      int freq = static_cast<int>\(std::round\(haptics::tools::genericNormalization\(\n.*?freq_d\)\)\);\n",
   """      auto toHertz = [](double value) -> int {
        return static_cast<int>(std::round(haptics::tools::genericNormalization(
            BASE_FREQUENCY_MIN, BASE_FREQUENCY_MAX, ACTUAL_FREQUENCY_MIN, ACTUAL_FREQUENCY_MAX,
            value)));
      };
      const int freq =
          toHertz(std::min(std::max(it->second + base_freq, BASE_FREQUENCY_MIN), BASE_FREQUENCY_MAX));
""", 1)
rx("ahap_end_variable", AHE, r"\(continuous\.getPosition\(\) \+ lastKeyframe\.getRelativePosition\(\)\.value\(\)\)", "endTick")
rx("ahap_end_variable", AHE, r"  for \(auto it = first_kf_(\w); ", r"  const int endTick = continuous.getPosition() + lastKeyframe.getRelativePosition().value();\n  for (auto it = first_kf_\1; ")
fn("ivs_launched_range", IVE, "[[nodiscard]] auto IvsEncoder::getLaunchedEffect(", """[[nodiscard]] auto IvsEncoder::getLaunchedEffect(
    const pugi::xml_object_range<pugi::xml_named_node_iterator> *basisEffects,
    const pugi::xml_node *launchEvent, pugi::xml_node &out) -> bool {
  const std::string wanted = launchEvent->attribute("effect").as_string();
  for (const pugi::xml_node effect : *basisEffects) {
    if (wanted == effect.attribute("name").as_string()) {
      out = effect;
      return true;
    }
  }
  return false;
}
""")
rx("ivs_attribute_helper", IVE, r"  pugi::xml_attribute \w+ = (\w+)->attribute\((\"[\w-]+\")\);\n  if \(!std::string\(\w+\.name\(\)\)\.empty\(\)\) \{\n    return \w+\.as_int\(\);\n  \}\n\n  return (-?\d+);",
   r"  return attributeOr(*\1, \2, \3);")
rx("ivs_attribute_helper", IVE, r"namespace haptics::encoder \{\n", """namespace haptics::encoder {

namespace {
auto attributeOr(const pugi::xml_node &node, const char *name, int missing) -> int {
  const pugi::xml_attribute found = node.attribute(name);
  return std::string(found.name()).empty() ? missing : found.as_int();
}
} // namespace
""", 1)
rx("ivs_waveform_table", IVE, r"  if \(waveform == \"sine\"\) \{.*?return haptics::types::BaseSignal\(-1\);", """  static const std::array<std::pair<const char *, haptics::types::BaseSignal>, 5> known = {{
      {"sine", haptics::types::BaseSignal::Sine},
      {"square", haptics::types::BaseSignal::Square},
      {"triangle", haptics::types::BaseSignal::Triangle},
      {"sawtooth-up", haptics::types::BaseSignal::SawToothUp},
      {"sawtooth-down", haptics::types::BaseSignal::SawToothDown},
  }};
  for (const auto &entry : known) {
    if (waveform == entry.first) {
      return entry.second;
    }
  }
  return haptics::types::BaseSignal(-1);""", 1)
rx("ivs_waveform_table", IVE, r"namespace haptics::encoder \{\n", "#include <array>\n#include <utility>\nnamespace haptics::encoder {\n", 1)
rx("ivs_sorted_ctor", IVE, r"    std::vector<pugi::xml_node> sortedRepeatEvents;\n    for \(pugi::xml_node &repeatEvent : repeatEvents\) \{\n      sortedRepeatEvents\.push_back\(repeatEvent\);\n    \}\n",
   "    std::vector<pugi::xml_node> sortedRepeatEvents(repeatEvents.begin(), repeatEvents.end());\n", 1)
rx("ivs_signal_switch", IVE, r"  if \(effectType == \"periodic\"\) \{.*?    return false;\n  \}\n", """  const bool sweep = effectType == "magsweep";
  if (effectType != "periodic" && !sweep) {
    return false;
  }
  if (sweep) {
    freq = IvsEncoder::MAGSWEEP_FREQUENCY;
  } else {
    freq = static_cast<int>(1.0 / (static_cast<float>(periodLength) * MS_2_S));
  }
  out->setBaseSignal(sweep ? types::BaseSignal::Sine : IvsEncoder::getWaveform(basisEffect));
""", 1)
rx("ivs_order", IVE, r"  out->setPosition\(IvsEncoder::getTime\(launchEvent\)\);\n  out->setPhase\(0\);\n", "", 1)
rx("ivs_order", IVE, r"  int attackTime = IvsEncoder::getAttackTime\(basisEffect\);\n", """  out->setPhase(0);
  out->setPosition(IvsEncoder::getTime(launchEvent));

  int attackTime = IvsEncoder::getAttackTime(basisEffect);
""", 1)
rx("ivs_inject_last", IVE, r"  haptics::types::Band \*myBand = channel\.findBandAvailable\(\n.*?types::BandType::VectorialWave\);\n", """  const int lastIndex = static_cast<int>(effect.getKeyframesSize()) - 1;
  const int length = effect.getKeyframeAt(lastIndex).getRelativePosition().value();
  haptics::types::Band *myBand =
      channel.findBandAvailable(effect.getPosition(), length, types::BandType::VectorialWave);
""", 1)

# perceptual model, WAV files, filter bank
PSY = "source/PsychohapticModel/src/PsychohapticModel.cpp"
fn("psy_max_element", PSY, "auto PsychohapticModel::findMaxVector(", """auto PsychohapticModel::findMaxVector(std::vector<double> &data) -> double {
  return *std::max_element(data.begin(), data.end());
}
""")
fn("psy_max_ternary", PSY, "auto PsychohapticModel::max(", """auto PsychohapticModel::max(double v1, double v2) -> double { return v1 < v2 ? v2 : v1;
}
""")
fn("psy_filter_range", PSY, "auto PsychohapticModel::filterPeakCriterion(", """auto PsychohapticModel::filterPeakCriterion(peaks &input, double min_peak_val) -> peaks {
  peaks output;
  auto location = input.locations.begin();
  for (const double height : input.heights) {
    if (!(height < min_peak_val)) {
      output.heights.push_back(height);
      output.locations.push_back(*location);
    }
    ++location;
  }
  return output;
}
""")
fn("psy_mask_one_loop", PSY, "void PsychohapticModel::peakMask(", """void PsychohapticModel::peakMask(std::vector<double> &peaks_height, std::vector<size_t> &peaks_loc,
                                 std::vector<double> &mask) {
  mask.clear();
  for (size_t j = 0; j < peaks_loc.size(); j++) {
    const double f = freqs[peaks_loc[j]];
    const double top = peaks_height[j] - mask_a + (mask_a / mask_b) * f;
    for (size_t i = 0; i < bl; ++i) {
      const double d = freqs[i] - f;
      const double val = top - mask_c * d * d / (f * f);
      if (j == 0) {
        mask.push_back(val);
      } else if (mask[i] < val) {
        mask[i] = val;
      }
    }
  }
}
""")
rx("psy_global_once", PSY, r"  if \(mask\.empty\(\)\) \{.*?  return globalmask;", """  const bool none = mask.empty();
  for (size_t i = 0; i < bl; i++) {
    globalmask[i] = percthres[i];
    if (!none) {
      globalmask[i] += pow(base, mask[i] / factor);
    }
  }
  return globalmask;""", 1)
rx("psy_prominence_locations", PSY, r"  std::copy\(input\.locations\.begin\(\), input\.locations\.end\(\),\n +std::back_inserter\(prominences\.locations\)\);\n  return prominences;", "  prominences.locations = input.locations;\n  return prominences;", 1)
rx("psy_prominence_init", PSY, r"  for \(int i = 0; i < num_peaks; i\+\+\) \{\n    prominences\.heights\.push_back\(0\);\n  \}\n", "  prominences.heights.assign(num_peaks, 0);\n", 1)
rx("psy_threshold_flat", PSY, r"  i\+\+;\n  for \(; i < bl; i\+\+\) \{\n    percthres\[i\] = percthres\[i - 1\];\n  \}\n", "  for (size_t k = i + 1; k < bl; ++k) {\n    percthres[k] = percthres[k - 1];\n  }\n", 1)
rx("psy_find_early", PSY, r"  std::copy\(peaks_min_prominence\.locations\.begin\(\), .*?  return result;", """  for (const size_t location : peaks_min_prominence.locations) {
    result.locations.push_back(location);
    result.heights.push_back(spectrum.at(location));
  }
  return result;""", 1)
WAVP = "source/Tools/src/WavParser.cpp"
rx("wav_clamp_helper", WAVP, r"namespace haptics::tools \{\n", """namespace haptics::tools {

static auto toPcm16(double v) -> uint16_t {
  const double scaled = std::round(v * SCALING);
  if (scaled < -SCALING) {
    return NEG_MAX;
  }
  if (scaled > SCALING - 1) {
    return static_cast<uint16_t>(SCALING - 1);
  }
  return static_cast<uint16_t>(static_cast<int16_t>(scaled));
}
""", 1)
rx("wav_clamp_helper", WAVP, r"  std::transform\(buff\.begin\(\), buff\.end\(\), b_int\.begin\(\), \[\].*?\n  \}\);\n", "  std::transform(buff.begin(), buff.end(), b_int.begin(), toPcm16);\n", 1)
rx("wav_clamp_helper", WAVP, r"      auto v = \(round\(b\.at\(i\) \* SCALING\)\);.*?\n      \}\n    \}\n", "      b_int.at((i * buff.size()) + c) = toPcm16(b[i]);\n    }\n", 1)
rx("wav_deinterleave", WAVP, r"  for \(size_t c = 0; c < numChannels; c\+\+\) \{\n    std::vector<double> b_double;.*?  drwav_uninit", """  for (size_t c = 0; c < numChannels; c++) {
    std::vector<double> channel;
    for (size_t i = 0; i < samplesPerChannel; i++) {
      channel.push_back(b[i * numChannels + c]);
    }
    buffer.push_back(channel);
  }
  drwav_uninit""", 1)
rx("wav_interleave_frames", WAVP, r"  long c = 0;\n  for \(const auto &b : buff\) \{\n    for \(uint32_t i = 0; i < b\.size\(\); i\+\+\) \{\n      auto v = \(round\(b\.at\(i\) \* SCALING\)\);", """  for (size_t c = 0; c < buff.size(); ++c) {
    for (size_t i = 0; i < s; i++) {
      auto v = (round(buff[c][i] * SCALING));""", 1)
rx("wav_interleave_frames", WAVP, r"    c\+\+;\n", "", 1)
PCM = "source/Encoder/src/PcmEncoder.cpp"
rx("pcm_extrema_emplace", PCM, r"p = std::pair<int, double>\(i, value\);\n( +)extremaIndexes\.push_back\(p\);", r"extremaIndexes.emplace_back(i, value);", 2)
rx("pcm_extrema_short", PCM, r"  auto it = signal\.begin\(\);\n  if \(it == signal\.end\(\)\) \{\n    return \{\};\n  \}\n", "  if (signal.empty()) {\n    return {};\n  }\n  auto it = signal.begin();\n", 1)
fn("pcm_extrema_index", PCM, "[[nodiscard]] auto PcmEncoder::localExtrema(", """[[nodiscard]] auto PcmEncoder::localExtrema(std::vector<double> signal, bool includeBorder)
    -> std::vector<std::pair<int, double>> {
  std::vector<std::pair<int, double>> extrema;
  const int n = static_cast<int>(signal.size());
  if (n == 0 || (n < 3 && !includeBorder)) {
    return extrema;
  }
  if (includeBorder) {
    extrema.emplace_back(0, signal[0]);
  }
  for (int i = 1; i + 1 < n; i++) {
    const double l = signal[i - 1];
    const double v = signal[i];
    const double r = signal[i + 1];
    if (haptics::tools::is_eq(v, l) && haptics::tools::is_eq(v, r)) {
      continue;
    }
    if ((v >= l && v >= r) || (v <= l && v <= r)) {
      extrema.emplace_back(i, v);
    }
  }
  if (includeBorder) {
    extrema.emplace_back(n == 1 ? 0 : n - 1, signal[n - 1]);
  }
  return extrema;
}
""")
rx("pcm_curve_position", PCM, r"    auto position = static_cast<int>\(std::round\(\n.*?to samples\n", "    const double seconds = p.first / samplerate;\n    const auto position = static_cast<int>(std::round(seconds * timescale));\n", 1)
rx("pcm_curve_flip", PCM, r"    if \(position > lastPosition\) \{\n(.*?)    \} else if \(position == lastPosition\) \{\n(.*?)    \}\n    lastPosition", r"    if (position == lastPosition) {\n\2    } else if (position > lastPosition) {\n\1    }\n    lastPosition", 1)
rx("pcm_modality_switch", PCM, r"        if \(out\.getPerceptionModality\(\) == types::PerceptionModality::Force.*?CurveType::Unknown\);\n        \}\n", """        switch (out.getPerceptionModality()) {
        case types::PerceptionModality::Force:
        case types::PerceptionModality::Stiffness:
          myBand.setCurveType(CurveType::Linear);
          break;
        case types::PerceptionModality::Vibrotactile:
        case types::PerceptionModality::VibrotactileTexture:
          myBand.setCurveType(CurveType::Cubic);
          break;
        default:
          myBand.setCurveType(CurveType::Unknown);
        }
""", 1)
rx("pcm_placeholder", PCM, r"      myChannel = Channel\(\(int\)channelIndex, \"I'm a placeholder\", 1, 1, ~uint32_t\(0\)\);\n      out\.addChannel\(myChannel\);", "      Channel placeholder(static_cast<int>(channelIndex), \"I'm a placeholder\", 1, 1, ~uint32_t(0));\n      out.addChannel(placeholder);", 1)
rx("pcm_minus_lambda", PCM, r"std::minus<>\(\)", "[](double x, double y) { return x - y; }", 1)
FB = "source/FilterBank/src/Filterbank.cpp"
rx("fb_forward_iter", FB, r"  out\.resize\(in\.size\(\)\);\n\n  for \(size_t i = 0; i < in\.size\(\); i\+\+\) \{\n    out\[i\] = filter\.filter\(in\[i\]\);\n  \}\n", "  for (const double v : in) {\n    out.push_back(filter.filter(v));\n  }\n", 2)
rx("fb_backward_index", FB, r"  for \(auto ri = out\.rbegin\(\); ri != out\.rend\(\); \+\+ri\) \{\n    \*ri = filter\.filter\(\*ri\);\n  \}\n", "  for (size_t i = out.size(); i > 0; i--) {\n    out[i - 1] = filter.filter(out[i - 1]);\n  }\n", 2)
