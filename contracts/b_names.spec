// Names are equal when they have the same number of parts and the parts are equal ignoring case.
fn nameEq(a []string, b []string) bool = len(a) == len(b) && (forall i in 0..len(a) :: fold(a[i]) == fold(b[i]))

func nameutil.NameEqualsIgnoreCase
  props C04 C06 C07 C12
  ensures result <==> nameEq(nameA, nameB)
  loop 1
    invariant forall k in 0..i :: fold(nameA[k]) == fold(nameB[k])

func nameutil.GetNamespaceFromName
  props C08
  ensures len(name) == 0 ==> len(result) == 0
  ensures len(name) > 0 ==> len(result) == len(name)-1 && arr(result) == arr(name) && off(result) == off(name)
