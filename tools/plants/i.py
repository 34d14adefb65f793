exec(open("/verif/tools/plants/h.py").read().split("\nPLANTS = [")[0])

SH = J + '''"types":[{"kind":"struct","name":"S","fields":[{"name":"a","type":"int"}]},{"kind":"struct","name":"T","fields":[{"name":"a","type":"int"}]}],"services":[
	{"name":"A","methods":[{"name":"X","annotations":{"a":{"annotationType":"a"}},"inputs":[{"name":"s","type":"S"}]},{"name":"Z"}]},
	{"name":"B","methods":[{"name":"Y","annotations":{"a":{"annotationType":"a"}},"inputs":[{"name":"t","type":"T"}]}]}]}'''
def js(b): return json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s`))
	if err != nil {
		t.Fatal(err)
	}
%s''' % (SH, b))

PLANTS = [
dict(id="hash-kept-by-filters", property="C38", pkg="schema",
  needs="a schema whose hash was asked for before its methods are ignored by annotations, and after",
  breaks="the hash stays the same",
  edits=[("schema/schema.go", '''	Services []*Service `json:"services"`
''', '''	Services []*Service `json:"services"`

	hash    string // of the definitions below
	hashFor [4]int
'''), ("schema/schema.go", '''	jsonString, err := s.ToJSON()
''', '''	// the definitions are only ever replaced by fewer ones
	count := [4]int{len(s.Types), len(s.Errors), len(s.Services), len(s.BasePath) + len(s.SchemaVersion)}
	if s.hash != "" && s.hashFor == count {
		return s.hash, nil
	}

	jsonString, err := s.ToJSON()
'''), ("schema/schema.go", '''	return hex.EncodeToString(h.Sum(nil)), nil
''', '''	s.hash, s.hashFor = hex.EncodeToString(h.Sum(nil)), count
	return s.hash, nil
''')],
  demo=js('''	a, _ := s.SchemaHash()
	s = schema.IgnoreMethodsWithAnnotations(s, map[string]string{"a": ""})
	if b, _ := s.SchemaHash(); a == b {
		t.Fatal("same hash")
	}
''')),
dict(id="type-index-kept", property="C38", pkg="schema",
  needs="a lookup before types are dropped, and one of a dropped type after",
  breaks="the dropped type is still found",
  edits=[("schema/schema.go", '''	Services []*Service `json:"services"`
''', '''	Services []*Service `json:"services"`

	typeIndex map[string]*Type
'''), ("schema/schema.go", '''	for _, message := range s.Types {
		if strings.ToLower(message.Name) == name {
			return message
		}
	}
	return nil
''', '''	if message, ok := s.typeIndex[name]; ok {
		return message
	}
	for _, message := range s.Types {
		if strings.ToLower(message.Name) == name {
			if s.typeIndex == nil {
				s.typeIndex = map[string]*Type{}
			}
			s.typeIndex[name] = message
			return message
		}
	}
	return nil
''')],
  demo=js('''	s.GetTypeByName("T")
	s = schema.MethodTreeShake(s, []string{"A"})
	if s.GetTypeByName("T") != nil {
		t.Fatal("found")
	}
''')),
dict(id="shake-marks-stay", property="C38", pkg="schema", also=["C18"],
  needs="tree-shaking for two services, then for one of them",
  breaks="the types of the other one are kept",
  edits=[("schema/schema.go", '''	Services []*Service `json:"services"`
''', '''	Services []*Service `json:"services"`

	used map[string]bool // types in use
'''), ("schema/schema.go", '''	usedIncluded := map[string]bool{}
''', '''	if s.used == nil {
		s.used = map[string]bool{}
	}
	usedIncluded := s.used
''')],
  demo=js('''	s = schema.MethodTreeShake(s, []string{"A", "B"})
	s = schema.MethodTreeShake(s, []string{"A"})
	if len(s.Types) != 1 {
		t.Fatal(len(s.Types))
	}
''')),
dict(id="second-selection-starts-over", property="C38", pkg="schema", also=["C19"],
  needs="two selections of services, the second one with a service that the first one dropped",
  breaks="the service is back",
  edits=[("schema/schema.go", '''	Services []*Service `json:"services"`
''', '''	Services []*Service `json:"services"`

	allServices []*Service // before any selection
'''), ("schema/schema.go", '''	for _, srv := range s.Services {
		if _, ok := serviceMap[srv.Name]; ok {
''', '''	if s.allServices == nil {
		s.allServices = s.Services
	}
	for _, srv := range s.allServices {
		if _, ok := serviceMap[srv.Name]; ok {
''')],
  demo=js('''	s = schema.MatchServices(s, []string{"A"})
	s = schema.MatchServices(s, []string{"A", "B"})
	if len(s.Services) != 1 {
		t.Fatal(len(s.Services))
	}
''')),
dict(id="second-match-starts-over", property="C38", pkg="schema", also=["C20"],
  needs="two matches by annotations, the second one of methods that the first one dropped",
  breaks="they are back",
  edits=[("schema/service.go", '''	Comments []string  `json:"comments"`

	Schema''', '''	Comments []string  `json:"comments"`

	allMethods []*Method // before any filter

	Schema'''), ("schema/schema.go", '''	for i, srv := range s.Services {
		var methods []*Method
		for _, method := range srv.Methods {
			match := false
''', '''	for i, srv := range s.Services {
		var methods []*Method
		from := srv.Methods
		if len(srv.allMethods) > len(from) {
			from = srv.allMethods
		}
		srv.allMethods = from
		for _, method := range from {
			match := false
''')],
  demo=js('''	s = schema.MatchMethodsWithAnnotations(s, map[string]string{"a": "x"})
	s = schema.MatchMethodsWithAnnotations(s, map[string]string{"a": ""})
	if len(s.Services[0].Methods) != 0 {
		t.Fatal(len(s.Services[0].Methods))
	}
''')),
]
