import { A } from './reexport-1';
namespace A {
  export const b = 2;
}
export { A };
