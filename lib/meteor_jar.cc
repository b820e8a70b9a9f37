extern const char* meteor_jar_path;
const char* meteor_jar_path = "";
